------------------------------- MODULE Export -------------------------------
(* The export library as a machine: statements, then objects one after the other,  *)
(* each going through the rules of its kind in their order.                       *)
EXTENDS Integers, Sequences, FiniteSets, ExportOps
CONSTANTS MaxSt, MaxObjs, Fault
VARIABLES st, cfg, objs, out, at, left
vars == <<st, cfg, objs, out, at, left>>
V == {<<>>, <<"x">>, <<"y">>}
St == {[s |-> "file", n |-> n] : n \in {"f", "g"}} \cup {[s |-> "type", n |-> n] : n \in {"line", "circle"}}
      \cup {[s |-> "column", n |-> n, t |-> t, w |-> 1] : n \in {"id", "a"}, t \in {"string"}}
      \cup {[s |-> "rule", on |-> "node", k |-> "a", any |-> x, v |-> v] : x \in BOOLEAN, v \in {<<>>, <<<<"x">>>>, <<<<>>, <<"y">>>>}}
      \cup {[s |-> "output", n |-> n] : n \in {"f", "g"}} \cup {[s |-> "attr", n |-> "a", k |-> k] : k \in {"a", "b"}}
Tags == {<<>>} \cup {<<<<"a", v>>>> : v \in V} \cup {<<<<"b", v>>>> : v \in {<<"x">>}} \cup {<<<<"a", <<"x">>>>, <<"b", <<"y">>>>>>}
Init == st = <<>> /\ cfg = ApplyAll(<<>>, 0) /\ objs = <<>> /\ out = <<>> /\ at = 0 /\ left = <<>>
(* statements belong to the file or rule before them *)
Sensible(s) == CASE s.s = "file" -> cfg.rules = <<>> /\ ~Has(cfg.files, s.n)
                 [] s.s \in {"type", "column"} -> cfg.files # <<>> /\ cfg.rules = <<>>
                 [] s.s = "rule" -> IF cfg.rules = <<>> THEN cfg.files # <<>> ELSE LastOf(cfg.rules).file # 0
                 [] OTHER -> cfg.rules # <<>>
Declare == /\ at = 0 /\ ~cfg.err /\ Len(st) < MaxSt /\ \E s \in St : Sensible(s) /\ st' = Append(st, s) /\ cfg' = Apply(cfg, s)
           /\ UNCHANGED <<objs, out, at, left>>
Open == /\ at = 0 /\ ~cfg.err /\ cfg.rules # <<>> /\ (\A i \in 1..Len(cfg.rules) : cfg.rules[i].file # 0)
        /\ at' = 1 /\ out' = [i \in 1..Len(cfg.files) |-> <<>>] /\ UNCHANGED <<st, cfg, objs, left>>
Object == /\ at = 1 /\ Len(objs) < MaxObjs /\ \E t \in Tags : objs' = Append(objs, t)
          /\ at' = 2 /\ UNCHANGED <<st, cfg, out, left>>
Truthy(r, t) == "truthy" \in Fault => \A v \in Tag(t, r.key) : v # <<>>
Rule == /\ at > 1 /\ at <= Len(cfg.rules) + 1
        /\ LET r == cfg.rules[at - 1]
               t == objs[Len(objs)]
               f == cfg.files[r.file]
               row == RowOf(r, f, <<"i">>, t) IN
           IF Matches(r, "node", t) /\ Truthy(r, t)
           THEN /\ out' = [out EXCEPT ![r.file] = Append(@, <<Len(objs), [i \in 1..Len(row) |-> IF "stale" \in Fault /\ row[i] = {} /\ i <= Len(left) THEN left[i] ELSE row[i]]>>)]
                /\ left' = row
                /\ at' = IF "once" \in Fault THEN Len(cfg.rules) + 2 ELSE at + 1
           ELSE at' = at + 1 /\ UNCHANGED <<out, left>>
        /\ UNCHANGED <<st, cfg, objs>>
Done == at = Len(cfg.rules) + 2 /\ at > 1 /\ at' = 1 /\ UNCHANGED <<st, cfg, objs, out, left>>
Spec == Init /\ [][Declare \/ Open \/ Object \/ Rule \/ Done]_vars
(* every rule of an object makes one record in its file, and nothing else makes any *)
Of(f, k) == Cardinality({i \in 1..Len(cfg.rules) : cfg.rules[i].file = f /\ LET r == cfg.rules[i] IN
    (\E j \in 1..Len(objs[k]) : objs[k][j][1] = r.key /\ (r.any \/ \E m \in 1..Len(r.vals) : r.vals[m] = objs[k][j][2]))})
Complete == at = 1 => \A f \in 1..Len(out) : \A k \in 1..Len(objs) : Cardinality({i \in 1..Len(out[f]) : out[f][i][1] = k}) = Of(f, k)
InOrder == \A f \in 1..Len(out) : \A i \in 1..(Len(out[f]) - 1) : out[f][i][1] <= out[f][i + 1][1]
(* nothing comes from another object *)
Own == \A f \in 1..Len(out) : \A i \in 1..Len(out[f]) : \A c \in 1..Len(out[f][i][2]) : \A v \in out[f][i][2][c] :
    v = <<"i">> \/ \E j \in 1..Len(objs[out[f][i][1]]) : objs[out[f][i][1]][j][2] = v
(* an id column without an attribute of its own has the id *)
Ids == \A f \in 1..Len(out) : \A i \in 1..Len(out[f]) : \A c \in 1..Len(cfg.files[f].cols) :
    cfg.files[f].cols[c][1] = "id" => out[f][i][2][c] = {<<"i">>}
Refused == cfg.err => out = <<>>
=============================================================================
