------------------------------- MODULE Recycle ------------------------------
(* C03: the reader reuses the storage of the last object it created, but only  *)
(* when nobody else holds it.  One slot per object type; types are independent,*)
(* so one slot is modelled.  An object is a function from fields to values; the*)
(* file only mentions the fields that differ from the default 0, and the       *)
(* parser only sets the mentioned ones.                                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Fields, Values, MaxLen, MaxRefs
VARIABLES file,    \* contents of the objects in the file
          i,       \* objects delivered
          slot,    \* storage the reader holds on to (0: none)
          heap,    \* storage -> content
          held,    \* <<storage, content at delivery>> the handler holds
          pc
vars == <<file, i, slot, heap, held, pc>>
Contents == [Fields -> Values]
Fresh == [f \in Fields |-> 0]
Init == /\ file \in UNION {[1..n -> Contents] : n \in 0..MaxLen}
        /\ i = 0 /\ slot = 0 /\ heap = [r \in 1..MaxRefs |-> Fresh] /\ held = {} /\ pc = "prepare"
Shared(r) == \E h \in held : h[1] = r
(* storage in use by the handler or the reader *)
Used == {h[1] : h \in held} \cup {slot}
Reuse == /\ pc = "prepare" /\ i < Len(file) /\ slot # 0 /\ ~Shared(slot)
         /\ heap' = [heap EXCEPT ![slot] = Fresh] /\ pc' = "fill"
         /\ UNCHANGED <<file, i, slot, held>>
Allocate == /\ pc = "prepare" /\ i < Len(file) /\ (slot = 0 \/ Shared(slot))
            /\ \E r \in 1..MaxRefs \ Used : slot' = r /\ heap' = [heap EXCEPT ![r] = Fresh]
            /\ pc' = "fill" /\ UNCHANGED <<file, i, held>>
Fill == /\ pc = "fill"
        /\ heap' = [heap EXCEPT ![slot] = [f \in Fields |-> IF file[i+1][f] # 0 THEN file[i+1][f] ELSE @[f]]]
        /\ pc' = "deliver" /\ UNCHANGED <<file, i, slot, held>>
Deliver == /\ pc = "deliver"
           /\ \E keep \in BOOLEAN : held' = IF keep THEN held \cup {<<slot, heap[slot]>>} ELSE held
           /\ i' = i + 1 /\ pc' = "prepare" /\ UNCHANGED <<file, slot, heap>>
Release == /\ \E h \in held : held' = held \ {h}
           /\ UNCHANGED <<file, i, slot, heap, pc>>
Next == Reuse \/ Allocate \/ Fill \/ Deliver \/ Release
Spec == Init /\ [][Next]_vars
KeptUnchanged == \A h \in held : heap[h[1]] = h[2]
NoLeak == pc = "deliver" => heap[slot] = file[i+1]
OwnStorage == \A h, g \in held : h # g => h[1] # g[1]
=============================================================================
