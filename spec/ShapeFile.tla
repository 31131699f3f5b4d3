----------------------------- MODULE ShapeFile ------------------------------
(* C31: export into shapefiles. A shapefile is a .shp file of shapes and a .dbf    *)
(* file with a row for each; both have a size limit, so the exporter counts and    *)
(* goes on in a new pair of files with the same fields. The history (everything    *)
(* added, in order) is kept apart from the files, and the sizes are computed from  *)
(* the content of the files, not from the counters.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cap,      \* largest size of a file
          ShpHead, DbfHead, FieldHead,   \* sizes of file headers and of a field's description
          Shapes, Widths, MaxShapes, MaxFields, Fault
VARIABLES files, fields, added, shpBytes, dbfBytes, reclen
vars == <<files, fields, added, shpBytes, dbfBytes, reclen>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
ShpSize(f) == ShpHead + Sum(f.shapes)
DbfSize(f) == DbfHead + FieldHead * Len(f.fields) + (1 + Sum(f.fields)) * Len(f.rows)
New(fl) == [fields |-> fl, shapes |-> <<>>, rows |-> <<>>]
Init == /\ files = <<New(<<>>)>> /\ fields = <<>> /\ added = <<>> /\ reclen = 1
        /\ shpBytes = ShpHead /\ dbfBytes = DbfHead
AddField(w) == /\ Len(fields) < MaxFields /\ added = <<>>
               /\ fields' = Append(fields, w) /\ files' = <<New(fields')>>
               /\ dbfBytes' = dbfBytes + (IF "fieldhead" \in Fault THEN 0 ELSE FieldHead)
               /\ reclen' = reclen + (IF "reclen" \in Fault THEN 0 ELSE w)
               /\ UNCHANGED <<added, shpBytes>>
Fits(g) == shpBytes + g <= Cap /\ dbfBytes + reclen <= Cap
Store(fs, g) == [fs EXCEPT ![Len(fs)] = [@ EXCEPT !.shapes = Append(@, g), !.rows = Append(@, Len(added) + 1)]]
AddHere(g) == /\ Len(added) < MaxShapes /\ Fits(g)
              /\ files' = Store(files, g) /\ added' = Append(added, g)
              /\ shpBytes' = shpBytes + g /\ dbfBytes' = dbfBytes + reclen
              /\ UNCHANGED <<fields, reclen>>
AddNext(g) == /\ Len(added) < MaxShapes /\ ~Fits(g)
              /\ LET fl == IF "nofields" \in Fault THEN <<>> ELSE fields
                     h == IF "noreset" \in Fault THEN shpBytes ELSE ShpHead
                     d == DbfHead + FieldHead * Len(fields) IN
                 /\ files' = Store(Append(files, New(fl)), g)
                 /\ shpBytes' = h + g
                 /\ dbfBytes' = IF "lostfirst" \in Fault THEN d ELSE d + reclen
              /\ added' = Append(added, g) /\ UNCHANGED <<fields, reclen>>
Next == (\E w \in Widths : AddField(w)) \/ (\E g \in Shapes : AddHere(g) \/ AddNext(g))
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Limit == \A i \in 1..Len(files) : ShpSize(files[i]) <= Cap /\ DbfSize(files[i]) <= Cap
RECURSIVE Cat(_, _)
Cat(fs, k) == IF k = 0 THEN <<>> ELSE Cat(fs, k - 1) \o [j \in 1..Len(fs[k].shapes) |-> <<fs[k].shapes[j], fs[k].rows[j]>>]
Kept == Cat(files, Len(files)) = [j \in 1..Len(added) |-> <<added[j], j>>]
SameFields == \A i \in 1..Len(files) : files[i].fields = fields
(* a file is left only when the next shape did not fit *)
NotEarly == \A i \in 1..Len(files) - 1 :
    \/ ShpSize(files[i]) + files[i + 1].shapes[1] > Cap
    \/ DbfSize(files[i]) + 1 + Sum(fields) > Cap
=============================================================================
