------------------------------- MODULE Order --------------------------------
(* C18: the orderings.  A key is a tuple of integers; the order of objects is   *)
(* that of <<magnitude of id, sign, version>>, the order of positions that of   *)
(* <<x, y>>, of undirected segments that of <<left end, right end>>.            *)
(* The machine sorts: it takes elements in any sequence and inserts each behind *)
(* the last one that is less - the way an ordered container does.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxId, MaxVer, MaxCoord, MaxLen, Fault
VARIABLES kind, cont, given
vars == <<kind, cont, given>>
Abs(i) == IF i < 0 THEN 0 - i ELSE i
Ids == (0 - MaxId)..MaxId
Objects == {<<i, v>> : i \in Ids, v \in 1..MaxVer}
Positions == {<<x, y>> : x \in 0..MaxCoord, y \in 0..MaxCoord}
Segments == {<<p, q>> : p \in Positions, q \in Positions}
LessO(a, b) == IF a[1] = b[1] THEN a[2] < b[2]
               ELSE IF Abs(a[1]) = Abs(b[1]) /\ "abs" \notin Fault THEN a[1] < b[1]
               ELSE Abs(a[1]) < Abs(b[1])
LessP(a, b) == IF a[1] = b[1] THEN a[2] < b[2] ELSE IF "yx" \in Fault THEN a[2] < b[2] ELSE a[1] < b[1]
Und(s) == IF LessP(s[2], s[1]) /\ "noswap" \notin Fault THEN <<s[2], s[1]>> ELSE s
LessS(s, t) == LET a == Und(s) c == Und(t) IN IF a[1] = c[1] THEN LessP(a[2], c[2]) ELSE LessP(a[1], c[1])
Less(a, b) == CASE kind = "o" -> LessO(a, b) [] kind = "p" -> LessP(a, b) [] kind = "s" -> LessS(a, b)
Same(a, b) == IF kind = "s" THEN a = b \/ a = <<b[2], b[1]>> ELSE a = b
Domain == CASE kind = "o" -> Objects [] kind = "p" -> Positions [] kind = "s" -> Segments
Init == kind \in {"o", "p", "s"} /\ cont = <<>> /\ given = {}
Insert(x) == LET at == Cardinality({i \in 1..Len(cont) : Less(cont[i], x)})
             IN IF \E i \in 1..Len(cont) : ~Less(cont[i], x) /\ ~Less(x, cont[i]) THEN cont
                ELSE SubSeq(cont, 1, at) \o <<x>> \o SubSeq(cont, at + 1, Len(cont))
Next == /\ Len(cont) < MaxLen /\ \E x \in Domain : cont' = Insert(x) /\ given' = given \cup {x}
        /\ kind' = kind
Spec == Init /\ [][Next]_vars
Irreflexive == \A x \in given : ~Less(x, x)
Transitive == \A x, y, z \in given : Less(x, y) /\ Less(y, z) => Less(x, z)
Total == \A x, y \in given : Same(x, y) <=> ~Less(x, y) /\ ~Less(y, x)
(* the container holds each different element once, ascending *)
Holds == /\ \A x \in given : \E i \in 1..Len(cont) : Same(cont[i], x)
         /\ \A i, j \in 1..Len(cont) : i < j => Less(cont[i], cont[j])
ByMagnitude == kind = "o" => \A i \in 1..Len(cont) - 1 : Abs(cont[i][1]) <= Abs(cont[i + 1][1])
=============================================================================
