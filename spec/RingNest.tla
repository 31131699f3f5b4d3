------------------------------ MODULE RingNest ------------------------------
(* C30: which rings are outer rings, and which ring is a hole of which. Every       *)
(* forest of rings in every order: the algorithm knows only who contains whom,      *)
(* counts the containers for even or odd, drops the relationships that go over a    *)
(* third ring, and hangs the odd ones into what is left.                            *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Fault
VARIABLES parent, contains, all, even, i, j, phase, holes
vars == <<parent, contains, all, even, i, j, phase, holes>>
R == 1..N
RECURSIVE Anc(_, _, _)
Anc(p, x, k) == IF k = 0 \/ p[x] = 0 THEN {} ELSE {p[x]} \cup Anc(p, p[x], k - 1)
Forest(p) == \A x \in R : x \notin Anc(p, x, N)
Depth(x) == Cardinality(Anc(parent, x, N))
Init == /\ parent \in {p \in [R -> 0..N] : Forest(p)}
        /\ contains = [a \in R |-> [b \in R |-> FALSE]] /\ all = contains /\ even = [a \in R |-> TRUE]
        /\ i = 1 /\ j = 1 /\ phase = "fill" /\ holes = [a \in R |-> {}]
Step(p) == IF j < N THEN i' = i /\ j' = j + 1 /\ phase' = phase
           ELSE IF i < N THEN i' = i + 1 /\ j' = 1 /\ phase' = phase
           ELSE i' = 1 /\ j' = 1 /\ phase' = p
Fill == /\ phase = "fill"
        /\ IF i # j /\ ~contains[j][i] /\ i \in Anc(parent, j, N)
           THEN contains' = [contains EXCEPT ![i][j] = TRUE] /\ even' = [even EXCEPT ![j] = IF "noparity" \in Fault THEN FALSE ELSE ~@]
           ELSE UNCHANGED <<contains, even>>
        /\ all' = contains'
        /\ Step("thin") /\ UNCHANGED <<parent, holes>>
Thin == /\ phase = "thin"
        /\ LET seen == IF "inplace" \in Fault THEN contains ELSE all IN
           contains' = IF contains[i][j] /\ (\E k \in R \ {i, j} : seen[i][k] /\ seen[k][j]) /\ "nothin" \notin Fault
                       THEN [contains EXCEPT ![i][j] = FALSE] ELSE contains
        /\ Step("hang") /\ UNCHANGED <<parent, all, even, holes>>
Hang == /\ phase = "hang"
        /\ holes' = IF contains[i][j] /\ ~even[j] THEN [holes EXCEPT ![i] = @ \cup {j}] ELSE holes
        /\ Step("done") /\ UNCHANGED <<parent, all, even, contains>>
Next == Fill \/ Thin \/ Hang \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Right == phase = "done" => \A x \in R : holes[x] = IF Depth(x) % 2 = 0 THEN {y \in R : parent[y] = x} ELSE {}
=============================================================================
