----------------------------- MODULE WriteFault -----------------------------
(* C10: writing a file, directly or through a compressing child, when the      *)
(* operating system may accept only a part of a write or refuse it, and the    *)
(* child may fail at any point.  Bytes are numbered; a file is a sequence.     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Piped, Fault
VARIABLES made,     \* bytes the writer has produced so far
          buf,      \* bytes in the writer's buffer
          pipe,     \* bytes between the writer and the child
          file,     \* what has reached the file
          child, phase, thrown
vars == <<made, buf, pipe, file, child, phase, thrown>>
Bytes(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
Init == /\ made = 0 /\ buf = <<>> /\ pipe = <<>> /\ file = <<>>
        /\ child = (IF Piped THEN "running" ELSE "none") /\ phase = "open" /\ thrown = FALSE
Produce == /\ phase = "open" /\ made < N /\ \E n \in 1..(N - made) :
                 made' = made + n /\ buf' = buf \o Bytes(made + 1, made + n)
           /\ UNCHANGED <<pipe, file, child, phase, thrown>>
Accept(n) == IF Piped THEN pipe' = pipe \o Take(buf, n) /\ UNCHANGED file
             ELSE file' = file \o Take(buf, n) /\ UNCHANGED pipe
CanWrite == buf # <<>> /\ phase \in {"open", "final"} /\ ~thrown
WriteSome == /\ CanWrite /\ (Piped => child = "running")
             /\ \E n \in 1..Len(buf) : Accept(n) /\ buf' = (IF "noloop" \in Fault THEN <<>> ELSE Drop(buf, n))
             /\ UNCHANGED <<made, child, phase, thrown>>
WriteFails == /\ CanWrite
              /\ IF "ignore" \in Fault \/ ("ignorefinal" \in Fault /\ phase = "final")
                 THEN buf' = <<>> /\ UNCHANGED <<thrown, phase>>
                 ELSE thrown' = TRUE /\ phase' = "ended" /\ UNCHANGED buf
              /\ UNCHANGED <<made, pipe, file, child>>
(* final: everything is produced; the buffer is flushed, the file closed *)
Final == /\ phase = "open" /\ made = N /\ ~thrown /\ phase' = "final"
         /\ UNCHANGED <<made, buf, pipe, file, child, thrown>>
Close == /\ phase = "final" /\ buf = <<>>
         /\ phase' = (IF Piped THEN "wait" ELSE "ended")
         /\ UNCHANGED <<made, buf, pipe, file, child, thrown>>
ChildWrites == /\ child = "running" /\ pipe # <<>>
               /\ file' = Append(file, Head(pipe)) /\ pipe' = Tail(pipe)
               /\ UNCHANGED <<made, buf, child, phase, thrown>>
ChildFails == /\ child = "running" /\ child' = "bad"
              /\ UNCHANGED <<made, buf, pipe, file, phase, thrown>>
ChildEnds == /\ child = "running" /\ pipe = <<>> /\ phase \in {"wait", "ended"} /\ child' = "good"
             /\ UNCHANGED <<made, buf, pipe, file, phase, thrown>>
Wait == /\ phase = "wait" /\ child \in {"good", "bad"}
        /\ thrown' = (child = "bad" /\ "nostatus" \notin Fault) /\ phase' = "ended" /\ UNCHANGED <<made, buf, pipe, file, child>>
Next == Produce \/ WriteSome \/ WriteFails \/ Final \/ Close \/ ChildWrites \/ ChildFails \/ ChildEnds \/ Wait
Spec == Init /\ [][Next]_vars
Ran == phase = "ended" /\ ~thrown
CompleteOrReported == Ran => file = Bytes(1, N)
NeverWrong == file = Bytes(1, Len(file))        \* nothing lost in the middle, nothing twice
=============================================================================
