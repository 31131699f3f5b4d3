----------------------------- MODULE ShapeTrace -----------------------------
(* Trace specification for C31, with the real sizes of the formats. At the end of  *)
(* a scenario the files are read back; they have to be those of the state. Runs of *)
(* equal shapes with equal rows are counted: <<shape, row, count>>. A shape is     *)
(* <<type, starts of its parts, points>>, and <<type, parts, points>> as numbers   *)
(* with the stand-in. A value of a row is <<>> (null), <<bytes>>, or two empty ones after *)
(* an exception.                                                                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, type, sink, base, fields, files, room, rroom, reclen
vars == <<l, type, sink, base, fields, files, room, rroom, reclen>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Cap == 2147483647
POINT == 1  ARC == 3  POLYGON == 5  MULTIPOINT == 8
Points == {1, 11, 21}
Multi == {8, 18, 28}
(* bytes of a shape's record: header 8, type 4; box 32, counts 4 each *)
Dim(t) == CASE t \in {1, 3, 5, 8} -> 2 [] t \in {21, 23, 25, 28} -> 3 [] OTHER -> 4
Ranges(t) == 16 * (Dim(t) - 2)
ShpSize(t, parts, n) ==
    IF t = 0 THEN 12
    ELSE IF t \in Points THEN 12 + 8 * Dim(t)
    ELSE IF t \in Multi THEN 12 + 32 + Ranges(t) + 4 + n * 8 * Dim(t)
    ELSE IF t = 31 THEN 12 + 32 + 32 + 8 + parts * 8 + n * 32
    ELSE 12 + 32 + Ranges(t) + 8 + parts * 4 + n * 8 * Dim(t)
SizeOf(g) == IF sink THEN ShpSize(g[1], g[2], g[3]) ELSE ShpSize(g[1], Len(g[2]), Len(g[3]))
NoRow == [i \in 1..Len(fields) |-> <<>>]
Fresh == [runs |-> <<>>]
Init == /\ l = 1 /\ type = 0 /\ sink = FALSE /\ base = "" /\ fields = <<>> /\ files = <<>> /\ room = 0 /\ rroom = 0 /\ reclen = 1
Begin == Is("begin") /\ UNCHANGED <<type, sink, base, fields, files, room, rroom, reclen>>
NewFile == /\ Is("new")
           /\ Ev.out \in {"ok", "error"} /\ Ev.left = 0
           /\ (Ev.out = "error") = Trace[l - 1].cannot
           /\ type' = Ev.type /\ sink' = Ev.sink /\ base' = Ev.base /\ fields' = <<>> /\ files' = <<Fresh>> /\ reclen' = 1
           /\ room' = Cap - 100 /\ rroom' = Cap - 33
(* ---- fields *)
Types == [string |-> "C", integer |-> "N", double |-> "N", bool |-> "L"]
Known == DOMAIN Types
Width == IF Ev.how = "s0" \/ (Ev.how = "s" /\ Ev.type = "bool") THEN 1 ELSE Ev.width
Dec == IF Ev.how = "e" THEN Ev.dec ELSE IF Ev.how = "s" /\ Ev.type = "double" THEN Ev.dec ELSE 0
Good == Ev.len \in 1..11 /\ Width \in 1..255 /\ Ev.type \in Known /\ Len(fields) < 2047
Field == /\ Is("field")
         /\ IF Good THEN /\ Ev.out = "ok" /\ Ev.n = Len(fields) + 1 /\ Ev.last = <<Ev.name, Width, Dec>>
                         /\ fields' = Append(fields, <<Ev.name, Types[Ev.type], Width, Dec>>)
                         /\ rroom' = rroom - 32 /\ reclen' = reclen + Width
            ELSE Ev.out = "error" /\ Ev.n = Len(fields) /\ UNCHANGED <<fields, rroom, reclen>>
         /\ UNCHANGED <<type, sink, base, files, room>>
(* ---- geometries *)
RECURSIVE Dedupe(_, _)
Dedupe(s, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<<<s[1][2], s[1][3]>>>>
    ELSE IF s[n][1] = s[n-1][1] \/ (s[n][2] = s[n-1][2] /\ s[n][3] = s[n-1][3]) THEN Dedupe(s, n - 1)
    ELSE Append(Dedupe(s, n - 1), <<s[n][2], s[n][3]>>)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Starts(_, _)
Starts(rs, k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<0>> ELSE Append(Starts(rs, k - 1), Starts(rs, k - 1)[k - 1] + Len(rs[k - 1]))
RECURSIVE Cat(_, _)
Cat(rs, k) == IF k = 0 THEN <<>> ELSE Cat(rs, k - 1) \o rs[k]
(* <<outcome, shape>> *)
Path(t) == LET n == Len(Ev.nodes)
               d == Dedupe(Ev.nodes, n)
               p == IF Ev.rev THEN Rev(d) ELSE d IN
    IF n = 0 \/ Ev.nodes[n][2] = Cap THEN <<"error", <<>>>>
    ELSE IF n = 1 \/ Len(d) = 1 THEN <<"illegal", <<>>>>
    ELSE <<"ok", <<t, <<0>>, p>>>>
Closed == Len(Ev.nodes) > 0 /\ Ev.nodes[1][1] = Ev.nodes[Len(Ev.nodes)][1]
Result == CASE Ev.what = "point" -> <<"ok", <<POINT, <<>>, <<Ev.pts>>>>>>
            [] Ev.what = "line" -> Path(ARC)
            [] Ev.what = "ring" -> IF Closed THEN Path(POLYGON) ELSE <<"open", <<>>>>
            [] Ev.what = "mp" -> <<"ok", <<POLYGON, Starts(Ev.rings, Len(Ev.rings)), Cat(Ev.rings, Len(Ev.rings))>>>>
            [] Ev.what = "area" -> <<"ok", <<POLYGON, <<0>>, [i \in 1..Len(Ev.nodes) |-> <<Ev.nodes[i][2], Ev.nodes[i][3]>>]>>>>
            [] OTHER -> <<"illegal", <<>>>>
ToLast(fs, r) == [fs EXCEPT ![Len(fs)] = [@ EXCEPT !.runs = Append(@, r)]]
Add(fs, g, row, rm, rr) == \* one geometry: <<files, room, room for rows>>
    LET s == SizeOf(g) IN
    IF s <= rm /\ reclen <= rr THEN <<ToLast(fs, <<g, row, 1>>), rm - s, rr - reclen>>
    ELSE <<ToLast(Append(fs, Fresh), <<g, row, 1>>), Cap - 100 - s, Cap - 33 - 32 * Len(fields) - reclen>>
Geom == /\ Is("geom")
        /\ LET r == Result IN
           IF r[1] = "ok" /\ r[2][1] = type
           THEN LET a == Add(files, IF sink THEN <<r[2][1], Len(r[2][2]), Len(r[2][3])>> ELSE r[2], NoRow, room, rroom) IN
                Ev.out = "ok" /\ files' = a[1] /\ room' = a[2] /\ rroom' = a[3]
           ELSE Ev.out = (IF r[1] = "ok" THEN "illegal" ELSE r[1]) /\ UNCHANGED <<files, room, rroom>>
        /\ UNCHANGED <<type, sink, base, fields, reclen>>
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE AddMany(_, _, _, _, _, _)
AddMany(fs, g, row, n, rm, rr) ==
    IF n = 0 THEN <<fs, rm, rr>>
    ELSE LET s == SizeOf(g)
             k == Least(n, Least(rm \div s, rr \div reclen)) IN
         IF k = 0 THEN AddMany(Append(fs, Fresh), g, row, n, Cap - 100, Cap - 33 - 32 * Len(fields))
         ELSE AddMany(ToLast(fs, <<g, row, k>>), g, row, n - k, rm - k * s, rr - k * reclen)
Many == /\ Is("many") /\ Ev.out = "ok"
        /\ LET row == IF fields = <<>> THEN <<>> ELSE [NoRow EXCEPT ![1] = <<Ev.bytes>>]
               a == AddMany(files, Ev.g, row, Ev.n, room, rroom) IN
           files' = a[1] /\ room' = a[2] /\ rroom' = a[3]
        /\ UNCHANGED <<type, sink, base, fields, reclen>>
(* ---- attributes of the geometry added last *)
Blank(n) == [i \in 1..n |-> 32]
Right(b, w) == Blank(w - Len(b)) \o b
Left(b, w) == b \o Blank(w - Len(b))
Follows(b) == b >= 128 /\ b < 192           \* second and later bytes of a character
RECURSIVE CutAt(_, _)
CutAt(b, k) == IF k < Len(b) /\ Follows(b[k + 1]) THEN CutAt(b, k - 1) ELSE k
Cut(b, w) == IF Len(b) <= w THEN b ELSE SubSeq(b, 1, CutAt(b, w))
Value(w) == LET b == IF Ev.how \in {"cut", "cutc"} THEN Cut(Ev.bytes, w) ELSE Ev.bytes IN
    IF ~sink /\ Len(b) > w THEN <<"error", <<<<>>, <<>>>>>>
    ELSE IF Ev.how = "null" \/ (\A i \in 1..Len(b) : b[i] = 32) THEN <<"ok", <<>>>>
    ELSE IF sink THEN <<"ok", <<b>>>>
    ELSE <<"ok", <<IF Ev.how \in {"int", "double"} THEN Right(b, w) ELSE Left(b, w)>>>>
Attr == /\ Is("attr")
        /\ IF Ev.f \in 1..Len(fields)
           THEN LET v == Value(fields[Ev.f][3])
                    f == files[Len(files)]
                    r == f.runs[Len(f.runs)] IN
                /\ Ev.out = v[1]
                /\ r[3] = 1
                /\ files' = [files EXCEPT ![Len(files)] = [f EXCEPT !.runs[Len(f.runs)] = <<r[1], [r[2] EXCEPT ![Ev.f] = v[2]], 1>>]]
           ELSE Ev.out = "error" /\ UNCHANGED files
        /\ UNCHANGED <<type, sink, base, fields, room, rroom, reclen>>
(* ---- what is in the files *)
RECURSIVE Merge(_, _)
Merge(rs, k) == IF k = 0 THEN <<>>
    ELSE LET m == Merge(rs, k - 1) IN
         IF m # <<>> /\ m[Len(m)][1] = rs[k][1] /\ m[Len(m)][2] = rs[k][2] THEN [m EXCEPT ![Len(m)] = <<@[1], @[2], @[3] + rs[k][3]>>]
         ELSE Append(m, rs[k])
RowIs(exp, got) == Len(got) = Len(exp) /\ \A i \in 1..Len(exp) : Len(exp[i]) = 2 \/ got[i] = exp[i]
RunIs(exp, got) == got[1] = exp[1] /\ RowIs(exp[2], got[2]) /\ got[3] = exp[3]
RECURSIVE Total(_, _)
Total(rs, k) == IF k = 0 THEN 0 ELSE Total(rs, k - 1) + rs[k][3] * SizeOf(rs[k][1])
Names == [i \in 1..Len(files) |-> IF i = 1 THEN base ELSE base \o "_" \o ToString(i - 1)]
(* names in a .dbf file have at most 10 characters and a NUL, shapelib may keep 11 *)
FieldIs(exp, got) == got[2] = exp[2] /\ got[3] = exp[3] /\ got[4] = exp[4]
FileIs(i, got) ==
    LET exp == IF sink THEN Merge(files[i].runs, Len(files[i].runs)) ELSE files[i].runs IN
    /\ got.name = Names[i] /\ got.type = type /\ got.prj /\ got.cpg /\ got.extra = 0
    /\ Len(got.fields) = Len(fields) /\ \A k \in 1..Len(fields) : FieldIs(fields[k], got.fields[k])
    /\ Len(got.runs) = Len(exp) /\ \A k \in 1..Len(exp) : RunIs(exp[k], got.runs[k])
    /\ IF sink THEN ~got.open
       ELSE /\ got.shp = 100 + Total(exp, Len(exp))
            /\ (Len(fields) > 0) => got.dbf - (33 + 32 * Len(fields) + reclen * Len(exp)) \in {0, 1}
FieldNames == \A i \in 1..Len(Ev.files) : \A k \in 1..Len(fields) :
    fields[k][1] = Ev.files[i].fields[k][1] \/ Len(fields[k][1]) > 10
Files == /\ Is("files") /\ Len(Ev.files) = Len(files)
         /\ (\A i \in 1..Len(files) : FileIs(i, Ev.files[i])) = TRUE
         /\ FieldNames
         /\ UNCHANGED <<type, sink, base, fields, files, room, rroom, reclen>>
Next == Begin \/ NewFile \/ Field \/ Geom \/ Many \/ Attr \/ Files
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
