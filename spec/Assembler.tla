----------------------------- MODULE Assembler ------------------------------
(* C19: two-pass assembly as a machine (member list sorted by id, countdown per *)
(* relation, slots) against the set-based meaning.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NRel, MaxMem, Refs, Types, Fault
(* a member: <<type, ref, wanted>>; a relation: sequence of members *)
Members == Types \X Refs \X BOOLEAN
Rels == [1..NRel -> UNION {[1..n -> Members] : n \in 0..MaxMem}]
VARIABLES rels, wanttypes,   \* which types the assembler was told to look at
          present,           \* objects in the file: set of <<type, ref>>
          todo,              \* those not gone by yet
          need, slots, handed, notin, avail, lefttypes, cur, phase
vars == <<rels, wanttypes, present, todo, need, slots, handed, notin, avail, lefttypes, cur, phase>>
Rank(t) == IF t = "n" THEN 1 ELSE 2
Wanted(i) == {p \in 1..Len(rels[i]) : rels[i][p][3]}
Init == /\ rels \in Rels /\ wanttypes \in (SUBSET Types) \ {{}}
        /\ present \in SUBSET (Types \X Refs) /\ todo = present
        /\ need = [i \in 1..NRel |-> Cardinality(Wanted(i))]
        /\ slots = [i \in 1..NRel |-> [p \in 1..Len(rels[i]) |-> <<>>]]
        /\ handed = <<>> /\ notin = {} /\ avail = 0 /\ lefttypes = Cardinality(wanttypes) /\ cur = "" /\ phase = "run"
Infos(o) == {<<i, p>> \in (1..NRel) \X (1..MaxMem) : p \in 1..Len(rels[i]) /\ rels[i][p] = <<o[1], o[2], TRUE>>}
Hits(o) == IF "firstonly" \in Fault /\ Infos(o) # {} THEN {CHOOSE h \in Infos(o) : TRUE} ELSE Infos(o)
Arrive(o) ==
    /\ phase = "run" /\ o \in todo /\ \A x \in todo : Rank(x[1]) >= Rank(o[1])
    /\ cur \in {o[1], ""} /\ cur' = o[1]
    /\ todo' = todo \ {o}
    /\ IF o[1] \notin wanttypes THEN UNCHANGED <<need, slots, handed, notin>>
       ELSE LET H == Hits(o) IN
            /\ need' = [i \in 1..NRel |-> need[i] - Cardinality({h \in H : h[1] = i})]
            /\ slots' = [i \in 1..NRel |-> [p \in 1..Len(rels[i]) |-> IF <<i, p>> \in H THEN o ELSE slots[i][p]]]
            /\ LET D == {i \in 1..NRel : need[i] > 0 /\ need'[i] <= (IF "early" \in Fault /\ need[i] > 1 THEN 1 ELSE 0)}
               IN handed' = IF D = {} THEN handed ELSE Append(handed, D)
            /\ notin' = IF H = {} THEN notin \cup {o} ELSE notin
    /\ UNCHANGED <<rels, wanttypes, present, avail, lefttypes, phase>>
(* the run of a type ends; empty runs have no callback *)
Count(t) == IF t \in wanttypes THEN lefttypes - 1 ELSE lefttypes
EndRun == /\ phase = "run" /\ cur # "" /\ ~ \E x \in todo : x[1] = cur
          /\ lefttypes' = Count(cur) /\ avail' = (IF cur \in wanttypes /\ lefttypes = 1 THEN avail + 1 ELSE avail)
          /\ cur' = "" /\ UNCHANGED <<rels, wanttypes, present, todo, need, slots, handed, notin, phase>>
Final == /\ phase = "run" /\ cur = "" /\ todo = {} /\ phase' = "done"
         /\ avail' = (IF lefttypes > 0 /\ "noavail" \notin Fault THEN avail + 1 ELSE avail)
         /\ UNCHANGED <<rels, wanttypes, present, todo, need, slots, handed, notin, lefttypes, cur>>
Next == (\E o \in todo : Arrive(o)) \/ EndRun \/ Final
Spec == Init /\ [][Next]_vars
Seen(o) == o \in present \ todo /\ o[1] \in wanttypes
Complete(i) == Wanted(i) # {} /\ \A p \in Wanted(i) : Seen(<<rels[i][p][1], rels[i][p][2]>>)
Times(i) == Cardinality({k \in 1..Len(handed) : i \in handed[k]})
HandedOnce == \A i \in 1..NRel : Times(i) = IF Complete(i) THEN 1 ELSE 0
RightSlots == \A i \in 1..NRel : \A p \in 1..Len(rels[i]) :
    slots[i][p] = IF p \in Wanted(i) /\ Seen(<<rels[i][p][1], rels[i][p][2]>>) THEN <<rels[i][p][1], rels[i][p][2]>> ELSE <<>>
NotIn == notin = {o \in present \ todo : Seen(o) /\ \A i \in 1..NRel : \A p \in Wanted(i) : <<rels[i][p][1], rels[i][p][2]>> # o}
Announced == avail <= 1 /\ (phase = "done" => avail = 1) /\ (avail = 1 => \A x \in todo : x[1] \notin wanttypes)
=============================================================================
