----------------------------- MODULE SphereModel ----------------------------
(* All triples of positions on a grid: the rules of Sphere agree with each other  *)
(* and are a metric. Ways grow by one node at a time; the length is the sum.      *)
EXTENDS Sphere, Sequences, FiniteSets
CONSTANTS Step, MaxLen, Fault
Lon == {k * Step : k \in -(H \div Step)..(H \div Step)}
Lat == {k * Step : k \in -(Q \div Step)..(Q \div Step)}
Pos == Lon \X Lat
VARIABLES way, len
vars == <<way, len>>
D(a, b) == IF "raw" \in Fault /\ a[2] = 0 /\ b[2] = 0 THEN {Ab(a[1] - b[1])} \cup Sure(a, b) ELSE Sure(a, b)
Init == way = <<>> /\ len = 0
Add(p) == /\ Len(way) < MaxLen
          /\ IF way = <<>> THEN len' = 0 ELSE \E d \in D(way[Len(way)], p) : len' = len + d
          /\ way' = Append(way, p)
Next == \E p \in Pos : Add(p)
Spec == Init /\ [][Next]_vars
Pairs == {<<i, j>> \in (1..Len(way)) \X (1..Len(way)) : TRUE}
Agree == \A p \in Pairs : LET a == way[p[1]] b == way[p[2]] IN
    /\ Cardinality(D(a, b)) <= 1
    /\ \A d \in D(a, b) : d >= 0 /\ d <= H /\ d \in D(b, a) /\ (d = 0) = Same(a, b)
    /\ \A d \in D(a, b) : /\ D(<<-a[1], a[2]>>, <<-b[1], b[2]>>) = {d} /\ D(<<a[1], -a[2]>>, <<b[1], -b[2]>>) = {d}
Detour == Len(way) > 1 => \A d \in D(way[1], way[Len(way)]) : d <= len
RECURSIVE Back(_)
Back(w) == IF Len(w) < 2 THEN 0 ELSE (CHOOSE d \in D(w[Len(w)], w[Len(w) - 1]) : TRUE) + Back(SubSeq(w, 1, Len(w) - 1))
Backwards == len = Back(way)
=============================================================================
