---------------------------- MODULE FileLifecycle ---------------------------
(* C11: OSMFile objects and what they own.  Slots hold OSMFile objects; the    *)
(* kind of an object stands for its name, type and encoding.  os is the set of *)
(* descriptors open in the process, kids the unreaped children.  Descriptors   *)
(* are given out as the operating system does: the lowest free one.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Kinds, Fault

In(k)     == k \in {"inplain", "ingz", "inbad", "missing"}
Piped(k)  == k \in {"ingz", "inbad", "outgz", "outfail"}
CanOpen(k) == k # "missing"                 \* with a child the open itself succeeds if there can be one
ChildBad(k) == k \in {"inbad", "outfail"}

VARIABLES ex,      \* object exists
          kind,    \* its name, type and encoding
          fd,      \* descriptor it owns, None if none
          okind,   \* kind at the time of opening
          child,   \* owns a child process
          read,    \* the input was read to its end
          os, kids,
          forks,   \* the system lets us create processes at the moment
          strange  \* the program has a child of its own that has ended and waits for being reaped
fvars == <<ex, kind, fd, okind, child, read, os, kids, forks, strange>>
None == 0 - 1
FInit == /\ ex = [s \in Slots |-> FALSE] /\ kind = [s \in Slots |-> "-"] /\ fd = [s \in Slots |-> None]
         /\ okind = [s \in Slots |-> "-"] /\ child = [s \in Slots |-> FALSE] /\ read = [s \in Slots |-> FALSE]
         /\ os = {} /\ kids = 0 /\ forks = TRUE /\ strange = FALSE
Lowest(S) == CHOOSE n \in 0..Cardinality(S) : n \notin S /\ \A m \in 0..(n - 1) : m \in S

(* closing slot a: result "ok" or "throw" *)
CloseResults(a) == IF ~child[a] THEN {"ok"}
                   ELSE IF ChildBad(okind[a]) THEN {"throw"}
                   ELSE IF In(okind[a]) /\ ~read[a] THEN {"ok", "throw"}   \* the child may have been cut off
                   ELSE {"ok"}
Closed(a) == /\ fd' = [fd EXCEPT ![a] = None] /\ os' = (IF fd[a] = (IF "zero" \in Fault THEN 0 ELSE None) THEN os ELSE os \ {fd[a]})
             /\ kids' = (IF child[a] /\ ~("anychild" \in Fault /\ strange) THEN kids - 1 ELSE kids)
             /\ strange' = (IF child[a] /\ "anychild" \in Fault THEN FALSE ELSE strange) /\ UNCHANGED forks
             /\ child' = [child EXCEPT ![a] = FALSE] /\ okind' = [okind EXCEPT ![a] = "-"] /\ read' = [read EXCEPT ![a] = FALSE]

New(a, k) == /\ ~ex[a] /\ ex' = [ex EXCEPT ![a] = TRUE] /\ kind' = [kind EXCEPT ![a] = k]
             /\ UNCHANGED <<fd, okind, child, read, os, kids, forks, strange>>
(* name, type and encoding may be changed at any time and take effect at the next open *)
Rename(a, k) == /\ ex[a] /\ kind' = [kind EXCEPT ![a] = k] /\ UNCHANGED <<ex, fd, okind, child, read, os, kids, forks, strange>>
Copy(a, b) == /\ ex[a] /\ ~ex[b] /\ ex' = [ex EXCEPT ![b] = TRUE] /\ kind' = [kind EXCEPT ![b] = kind[a]]
              /\ IF "copyfd" \in Fault THEN fd' = [fd EXCEPT ![b] = fd[a]] ELSE UNCHANGED fd
              /\ UNCHANGED <<okind, child, read, os, kids, forks, strange>>
(* b := a *)
Assign(a, b, res) == /\ ex[a] /\ ex[b] /\ a # b /\ res \in CloseResults(b)
                     /\ kind' = (IF res = "ok" THEN [kind EXCEPT ![b] = kind[a]] ELSE kind)
                     /\ IF "assignleak" \in Fault THEN fd' = [fd EXCEPT ![b] = None] /\ UNCHANGED <<okind, child, read, os, kids, forks, strange>>
                        ELSE Closed(b)
                     /\ UNCHANGED ex
Close(a, res) == /\ ex[a] /\ res \in CloseResults(a) /\ Closed(a) /\ UNCHANGED <<ex, kind>>
Destroy(a) == /\ ex[a] /\ ex' = [ex EXCEPT ![a] = FALSE] /\ kind' = [kind EXCEPT ![a] = "-"]
              /\ (IF "nodestroy" \in Fault THEN fd' = [fd EXCEPT ![a] = None] /\ UNCHANGED <<okind, child, read, os, kids, forks, strange>> ELSE Closed(a))
(* opening closes first; a failed close or open leaves the object closed *)
Open(a, res, n) ==
    /\ ex[a]
    /\ LET k == kind[a]
           closed == os \ {fd[a]}
       IN \/ /\ "throw" \in CloseResults(a) /\ res = "throw" /\ Closed(a)
          \/ /\ "ok" \in CloseResults(a) /\ ~(CanOpen(k) /\ (Piped(k) => forks)) /\ res = "throw" /\ Closed(a)
          \/ /\ "ok" \in CloseResults(a) /\ CanOpen(k) /\ (Piped(k) => forks) /\ res = "ok"
             /\ n \notin closed
             /\ fd' = [fd EXCEPT ![a] = n] /\ os' = closed \cup {n}
             /\ kids' = kids - (IF child[a] THEN 1 ELSE 0) + (IF Piped(k) THEN 1 ELSE 0)
             /\ child' = [child EXCEPT ![a] = Piped(k)] /\ okind' = [okind EXCEPT ![a] = k] /\ read' = [read EXCEPT ![a] = FALSE]
             /\ UNCHANGED <<forks, strange>>
    /\ UNCHANGED <<ex, kind>>
ReadAll(a) == /\ ex[a] /\ fd[a] # None /\ In(okind[a]) /\ read' = [read EXCEPT ![a] = TRUE]
              /\ UNCHANGED <<ex, kind, fd, okind, child, os, kids, forks, strange>>
Write(a) == /\ ex[a] /\ fd[a] # None /\ ~In(okind[a]) /\ UNCHANGED fvars
(* what else happens in the program *)
Forks(b) == forks # b /\ forks' = b /\ UNCHANGED <<ex, kind, fd, okind, child, read, os, kids, strange>>
Stranger == ~strange /\ strange' = TRUE /\ UNCHANGED <<ex, kind, fd, okind, child, read, os, kids, forks>>
Reap == strange /\ strange' = FALSE /\ UNCHANGED <<ex, kind, fd, okind, child, read, os, kids, forks>>

OwnsExactly == os = {fd[s] : s \in {x \in Slots : fd[x] # None}}
NoSharing == \A s, t \in Slots : s # t /\ fd[s] # None => fd[s] # fd[t]
KidsOwned == kids = Cardinality({s \in Slots : child[s]})
OnlyLive == \A s \in Slots : ~ex[s] => fd[s] = None /\ ~child[s]
ChildHasFd == \A s \in Slots : child[s] => fd[s] # None
=============================================================================
