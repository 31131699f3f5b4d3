------------------------------- MODULE Bounds -------------------------------
(* C22: a box extended position by position, against the smallest and largest    *)
(* coordinates of all defined positions seen. U is the undefined coordinate; a   *)
(* position with it in either place is undefined. reading: the bounding-box      *)
(* handler on a file of runs of objects; it asks to stop after the first nodes.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Coords, U, MaxLen, Fault
VARIABLES box, seen, ph, n
vars == <<box, seen, ph, n>>
Undef == <<U, U, U, U>>           \* min x, min y, max x, max y
All == Coords \cup {U}
Defined(p) == p[1] # U /\ p[2] # U
Extend(b, p) ==
    IF ~Defined(p) /\ "undef" \notin Fault THEN b
    ELSE IF b[1] = U THEN (IF "half" \in Fault THEN <<p[1], p[2], 0, 0>> ELSE <<p[1], p[2], p[1], p[2]>>)
    ELSE IF "elseif" \in Fault /\ p[1] < b[1] THEN <<p[1], b[2], b[3], b[4]>>
    ELSE << IF p[1] < b[1] THEN p[1] ELSE b[1], IF p[2] < b[2] THEN p[2] ELSE b[2],
            IF p[1] > b[3] THEN p[1] ELSE b[3], IF p[2] > b[4] THEN p[2] ELSE b[4] >>
Init == box = Undef /\ seen = {} /\ ph = "start" /\ n = 0
Node == /\ ph \in {"start", "nodes"} \/ "nostop" \in Fault
        /\ ph # "final" /\ n < MaxLen /\ n' = n + 1 /\ ph' = "nodes"
        /\ \E p \in All \X All : box' = Extend(box, p) /\ seen' = (IF ph \in {"start", "nodes"} THEN seen \cup {p} ELSE seen)
Other == ph \in {"start", "after"} /\ (ph = "after" => "nostop" \in Fault) /\ UNCHANGED vars
AfterNodes == ph = "nodes" /\ ph' = (IF "nostop" \in Fault THEN "after" ELSE "final") /\ UNCHANGED <<box, seen, n>>
EndOfFile == ph \in {"start", "after"} /\ ph' = "final" /\ UNCHANGED <<box, seen, n>>
Next == Node \/ Other \/ AfterNodes \/ EndOfFile
Spec == Init /\ [][Next]_vars
Def == {p \in seen : Defined(p)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
Tight == box = IF Def = {} THEN Undef
               ELSE << Least({p[1] : p \in Def}), Least({p[2] : p \in Def}), Greatest({p[1] : p \in Def}), Greatest({p[2] : p \in Def}) >>
=============================================================================
