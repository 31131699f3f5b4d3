------------------------------- MODULE Coords -------------------------------
(* C15: the coordinate handler: two stores by magnitude of id, one per sign.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Max, Poss, MaxOps, WayLen, Fault
Ids == (0 - Max)..Max
None == 0
VARIABLES latest,      \* position most recently seen, by id
          pos, neg,    \* the stores, by magnitude
          way,         \* last way that passed: sequence of <<ref, position>>
          refs,        \* its references before
          n
vars == <<latest, pos, neg, way, refs, n>>
Init == /\ latest = [i \in Ids |-> None] /\ pos = [i \in 0..Max |-> None] /\ neg = [i \in 0..Max |-> None]
        /\ way = <<>> /\ refs = <<>> /\ n = 0
Abs(i) == IF i < 0 THEN 0 - i ELSE i
Node(i, p) == /\ latest' = [latest EXCEPT ![i] = p]
              /\ IF i >= 0 \/ "onestore" \in Fault THEN pos' = [pos EXCEPT ![Abs(i)] = p] /\ UNCHANGED neg
                 ELSE neg' = [neg EXCEPT ![Abs(i)] = p] /\ UNCHANGED pos
              /\ way' = <<>> /\ refs' = <<>>
Find(i) == IF i > 0 \/ (i = 0 /\ "zeroneg" \notin Fault) \/ "onestore" \in Fault THEN pos[Abs(i)] ELSE neg[Abs(i)]
Way(s) == /\ refs' = s /\ way' = [k \in 1..Len(s) |-> <<s[k], Find(s[k])>>] /\ UNCHANGED <<latest, pos, neg>>
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E i \in Ids, p \in Poss : Node(i, p)
           \/ \E k \in 1..WayLen : \E s \in [1..k -> Ids] : Way(s)
Spec == Init /\ [][Next]_vars
Exact == /\ [k \in 1..Len(way) |-> way[k][1]] = refs
         /\ \A k \in 1..Len(way) : way[k][2] = latest[way[k][1]]
Lookup == \A i \in Ids : Find(i) = latest[i]
=============================================================================
