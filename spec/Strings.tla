------------------------------ MODULE Strings -------------------------------
(* C29: a string table with interim ids while recording and final ids after       *)
(* storing, as data: counts per string, interim ids in order of first use.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Strs, MaxRec, Fault
VARIABLES phase, id, count, size, given, table, map
vars == <<phase, id, count, size, given, table, map>>
Init == /\ phase = "rec" /\ id = [s \in Strs |-> 0] /\ count = [s \in Strs |-> 0] /\ size = 0 /\ given = <<>> /\ table = <<>> /\ map = <<>>
New(s) == IF id[s] = 0 THEN size + 1 ELSE id[s]
Cut(n) == IF "narrow" \in Fault THEN n % 3 ELSE n            \* ids too narrow for many strings
Record(s) ==
    /\ phase = "rec" /\ Len(given) < MaxRec
    /\ id' = [id EXCEPT ![s] = Cut(New(s))] /\ size' = (IF id[s] = 0 THEN size + 1 ELSE size)
    /\ count' = [count EXCEPT ![s] = IF "first" \in Fault THEN 1 ELSE @ + 1]
    /\ given' = Append(given, <<s, Cut(New(s))>>) /\ UNCHANGED <<phase, table, map>>
Used == {s \in Strs : count[s] > 0}
Orders == {f \in [1..Cardinality(Used) -> Used] : /\ \A i, j \in DOMAIN f : f[i] = f[j] => i = j
                                                  /\ \A i, j \in DOMAIN f : i < j => count[f[i]] >= count[f[j]]}
Store == \E f \in Orders :
    /\ phase = "rec" /\ phase' = "stored"
    /\ table' = IF "noempty" \in Fault THEN f ELSE <<"">> \o f      \* index 0 is the first element
    /\ map' = [n \in {id[s] : s \in Used} |-> (CHOOSE i \in DOMAIN f : id[f[i]] = n) - (IF "noempty" \in Fault THEN 1 ELSE 0)]
    /\ UNCHANGED <<id, count, size, given>>
Clear == /\ phase = "stored" /\ phase' = "rec" /\ id' = (IF "keep" \in Fault THEN id ELSE [s \in Strs |-> 0])
         /\ count' = [s \in Strs |-> 0] /\ size' = 0 /\ given' = <<>> /\ table' = <<>> /\ map' = <<>>
Next == (\E s \in Strs : Record(s)) \/ Store \/ Clear
Spec == Init /\ [][Next]_vars
Times(s) == Cardinality({i \in DOMAIN given : given[i][1] = s})
Ids == /\ \A i, j \in DOMAIN given : (given[i][1] = given[j][1]) <=> (given[i][2] = given[j][2])
       /\ \A i \in DOMAIN given : given[i][2] > 0 /\ given[i][2] <= MaxRec
Stored == phase = "stored" =>
    /\ table[1] = "" /\ Len(table) = 1 + Cardinality({given[i][1] : i \in DOMAIN given})
    /\ \A i \in DOMAIN given : LET k == map[given[i][2]] IN k > 0 /\ table[k + 1] = given[i][1]
    /\ \A i, j \in DOMAIN given : Times(given[i][1]) > Times(given[j][1]) => map[given[i][2]] < map[given[j][2]]
Fresh == (phase = "rec" /\ given # <<>>) => \A i \in DOMAIN given : given[i][2] <= Cardinality({given[j][1] : j \in DOMAIN given})
=============================================================================
