----------------------------- MODULE HandlerTree ----------------------------
(* C23: stacks of forwarding (F) and sequencing (S) handlers over leaves (L).    *)
(* The machine makes one call after the other the way the code does (calls is    *)
(* the list of handlers still to be called for the current callback); the        *)
(* statement is about the leaves from left to right.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Depth, Callbacks, Fault, WithStop
L(n) == [k |-> "L", n |-> n, sub |-> <<>>]
F(t) == [k |-> "F", n |-> 0, sub |-> <<t>>]
S(a, c) == [k |-> "S", n |-> 0, sub |-> <<a, c>>]
RECURSIVE Trees(_), Leaves(_), Number(_, _), CountL(_)
Trees(d) == IF d = 0 THEN {L(0)}
            ELSE LET T == Trees(d - 1) IN {L(0)} \cup {F(t) : t \in T} \cup {S(a, c) : a \in T, c \in T}
CountL(t) == IF t.k = "L" THEN 1 ELSE IF t.k = "F" THEN CountL(t.sub[1]) ELSE CountL(t.sub[1]) + CountL(t.sub[2])
Number(t, n) == IF t.k = "L" THEN L(n) ELSE IF t.k = "F" THEN F(Number(t.sub[1], n))
                ELSE S(Number(t.sub[1], n), Number(t.sub[2], n + CountL(t.sub[1])))
Leaves(t) == IF t.k = "L" THEN <<t.n>> ELSE IF t.k = "F" THEN Leaves(t.sub[1]) ELSE Leaves(t.sub[1]) \o Leaves(t.sub[2])
VARIABLES tree, cb, calls, marks, log, stopper, stopped
vars == <<tree, cb, calls, marks, log, stopper, stopped>>
Init == /\ \E t \in Trees(Depth) : tree = Number(t, 1)
        /\ cb = 0 /\ calls = <<>> /\ marks = <<>> /\ log = <<>> /\ stopped = 0
        /\ stopper \in (IF WithStop THEN (0..CountL(tree)) \X (1..Len(Callbacks)) ELSE {<<0, 1>>})
(* the reader makes the next callback; a new object has no marks yet *)
Callback == /\ calls = <<>> /\ stopped = 0 /\ cb < Len(Callbacks)
            /\ cb' = cb + 1 /\ calls' = <<tree>> /\ marks' = <<>> /\ log' = <<>> /\ UNCHANGED <<tree, stopper, stopped>>
Call == /\ calls # <<>>
        /\ LET t == Head(calls) rest == Tail(calls) c == IF stopped = 1 THEN "final" ELSE Callbacks[cb] IN
           IF t.k = "L" THEN
              /\ log' = Append(log, <<t.n, c, marks>>)
              /\ marks' = Append(marks, t.n)
              /\ IF stopper = <<t.n, cb>> /\ stopped = 0 /\ c # "final"
                 THEN IF "both" \in Fault THEN calls' = rest /\ stopped' = 1 ELSE calls' = <<>> /\ stopped' = 1
                 ELSE calls' = rest /\ stopped' = (IF stopped = 1 /\ rest = <<>> THEN 2 ELSE stopped)
           ELSE /\ calls' = (IF t.k = "F" THEN (IF "drop" \in Fault /\ c = "area" THEN rest ELSE IF "twice" \in Fault /\ c = "init" THEN <<t.sub[1], t.sub[1]>> \o rest ELSE <<t.sub[1]>> \o rest)
                             ELSE IF "swap" \in Fault THEN <<t.sub[2], t.sub[1]>> \o rest ELSE t.sub \o rest)
                /\ marks' = (IF "copy" \in Fault /\ t.k = "S" THEN <<>> ELSE marks)
                /\ UNCHANGED <<log, stopped>>
        /\ UNCHANGED <<tree, cb, stopper>>
StopFinal == calls = <<>> /\ stopped = 1 /\ log # <<>> /\ log[Len(log)][2] # "final"
             /\ calls' = <<tree>> /\ marks' = <<>> /\ log' = <<>> /\ UNCHANGED <<tree, cb, stopper, stopped>>
Next == Callback \/ Call \/ StopFinal
Spec == Init /\ [][Next]_vars
Upto(n) == SubSeq(Leaves(tree), 1, n)
Wanted(n, c) == [i \in 1..n |-> <<Leaves(tree)[i], c, Upto(i - 1)>>]
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Cur == IF cb = 0 THEN "" ELSE IF stopped = 2 \/ (stopped = 1 /\ log # <<>> /\ log[1][2] = "final") THEN "final" ELSE Callbacks[cb]
InOrder == Prefix(log, Wanted(CountL(tree), Cur))
Complete == (calls = <<>> /\ cb > 0 /\ stopped # 1) => Len(log) = CountL(tree)
StopHere == (stopped = 1 /\ calls = <<>> /\ Cur # "final") => log[Len(log)][1] = stopper[1]
=============================================================================
