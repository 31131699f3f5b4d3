----------------------------- MODULE ExportOps ------------------------------
(* The export library for shapefiles: what its statements declare, and what an    *)
(* object contributes to the files. A statement is a record with s in {"file",    *)
(* "name", "type", "column", "rule", "output", "attr"}. Tags are pairs of a key    *)
(* and a value; a value is a sequence of characters, each given as its bytes.     *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Kinds == {"point", "line", "polygon"}
Columns == {"integer", "string", "double", "bool"}
None == [err |-> TRUE, files |-> <<>>, rules |-> <<>>]
Has(fs, n) == \E i \in 1..Len(fs) : fs[i].name = n
Find(fs, n) == CHOOSE i \in 1..Len(fs) : fs[i].name = n
LastOf(q) == q[Len(q)]
(* one statement *)
Apply(c, s) ==
    IF c.err THEN c
    ELSE CASE s.s = "file" -> [c EXCEPT !.files = Append(@, [name |-> s.n, fname |-> s.n, kind |-> "point", cols |-> <<>>])]
           [] s.s = "name" -> [c EXCEPT !.files[Len(c.files)].fname = s.n]
           [] s.s = "type" -> IF s.n \in Kinds THEN [c EXCEPT !.files[Len(c.files)].kind = s.n] ELSE None
           [] s.s = "column" -> IF s.t \in Columns THEN [c EXCEPT !.files[Len(c.files)].cols = Append(@, <<s.n, s.t, s.w>>)] ELSE None
           [] s.s = "rule" -> [c EXCEPT !.rules = Append(@, [on |-> s.on, key |-> s.k, any |-> s.any, vals |-> s.v, file |-> 0, attrs |-> <<>>])]
           [] s.s = "output" -> IF Has(c.files, s.n) THEN [c EXCEPT !.rules[Len(c.rules)].file = Find(c.files, s.n)] ELSE None
           [] s.s = "attr" -> LET r == LastOf(c.rules) IN
                              IF r.file = 0 THEN None
                              ELSE IF \A i \in 1..Len(c.files[r.file].cols) : c.files[r.file].cols[i][1] # s.n THEN None
                              ELSE [c EXCEPT !.rules[Len(c.rules)].attrs = Append(@, <<s.n, s.k>>)]
RECURSIVE ApplyAll(_, _)
ApplyAll(st, k) == IF k = 0 THEN [err |-> FALSE, files |-> <<>>, rules |-> <<>>] ELSE Apply(ApplyAll(st, k - 1), st[k])
(* ---- objects *)
Tag(tags, k) == {tags[i][2] : i \in {j \in 1..Len(tags) : tags[j][1] = k}}
Matches(r, on, tags) == r.on = on /\ Tag(tags, r.key) # {} /\ (r.any \/ \E v \in Tag(tags, r.key) : \E i \in 1..Len(r.vals) : r.vals[i] = v)
(* what a column gets: the tag of the last attr statement for it, the id, or nothing *)
Source(r, col) ==
    LET I == {i \in 1..Len(r.attrs) : r.attrs[i][1] = col} IN
    IF I # {} THEN <<"tag", r.attrs[CHOOSE i \in I : \A j \in I : j <= i][2]>>
    ELSE IF col = "id" THEN <<"id">> ELSE <<"none">>
Values(r, col, id, tags) ==        \* at most one
    LET s == Source(r, col) IN
    IF s[1] = "tag" THEN Tag(tags, s[2]) ELSE IF s[1] = "id" THEN {id} ELSE {}
RowOf(r, f, id, tags) == [i \in 1..Len(f.cols) |-> Values(r, f.cols[i][1], id, tags)]
=============================================================================
