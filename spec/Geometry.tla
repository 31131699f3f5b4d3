------------------------------ MODULE Geometry ------------------------------
(* C27: the four representations of a geometry, token by token, and the reading    *)
(* of each by its own grammar. The writer emits one token per step; the reader     *)
(* knows nothing of the way but what is written.                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Coords, MaxLen, Fault
VARIABLES way, kind, fmt, rev, srid, out, pc, i
vars == <<way, kind, fmt, rev, srid, out, pc, i>>
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Closed(w) == w # <<>> /\ w[1] = w[Len(w)]
Init == /\ way \in SeqsUpTo(Coords, MaxLen) /\ kind \in {"point", "line", "polygon"} /\ fmt \in {"wkt", "wkb"}
        /\ rev \in BOOLEAN /\ srid \in BOOLEAN /\ out = <<>> /\ i = 0
        /\ (kind = "point" => Len(way) = 1 /\ ~rev)
        /\ pc = (IF kind = "polygon" /\ ~Closed(way) /\ "open" \notin Fault THEN "refused" ELSE "head")
Code == CASE kind = "point" -> 1 [] kind = "line" -> 2 [] kind = "polygon" -> 3
Head0 == IF fmt = "wkt" THEN (IF srid THEN <<"SRID">> ELSE <<>>) \o <<kind>>
         ELSE <<Code + (IF srid THEN 100 ELSE 0)>> \o (IF srid /\ "nosrid" \notin Fault THEN <<4326>> ELSE <<>>)
              \o (IF kind = "polygon" THEN <<1>> ELSE <<>>)
              \o (IF kind = "point" THEN <<>> ELSE <<IF "count" \in Fault THEN Len(way) - 1 ELSE Len(way)>>)
Begin == pc = "head" /\ out' = Head0 /\ pc' = "items" /\ i' = 1 /\ UNCHANGED <<way, kind, fmt, rev, srid>>
Item == /\ pc = "items" /\ i <= Len(way)
        /\ LET back == rev /\ ~("halfrev" \in Fault /\ fmt = "wkb")
           IN out' = out \o <<way[IF back THEN Len(way) + 1 - i ELSE i]>>
        /\ i' = i + 1 /\ UNCHANGED <<way, kind, fmt, rev, srid, pc>>
End == pc = "items" /\ i > Len(way) /\ pc' = "done" /\ out' = (IF fmt = "wkt" THEN Append(out, "end") ELSE out) /\ UNCHANGED <<way, kind, fmt, rev, srid, i>>
Next == Begin \/ Item \/ End
Spec == Init /\ [][Next]_vars
(* ---- readers: <<kind, srid, coordinates>> or <<"error">> *)
ReadWkt(o) == LET s == o # <<>> /\ o[1] = "SRID"
                  p == IF s THEN 2 ELSE 1
              IN IF Len(o) <= p \/ o[Len(o)] # "end" THEN <<"error">> ELSE <<o[p], s, SubSeq(o, p + 1, Len(o) - 1)>>
ReadWkb(o) == LET s == o[1] > 100
                  c == o[1] - (IF s THEN 100 ELSE 0)
                  p == IF s THEN 3 ELSE 2
              IN IF s /\ (Len(o) < 2 \/ o[2] # 4326) THEN <<"error">>
                 ELSE IF c = 1 THEN (IF Len(o) = p THEN <<"point", s, SubSeq(o, p, p)>> ELSE <<"error">>)
                 ELSE IF c = 2 THEN (IF Len(o) >= p /\ Len(o) = p + o[p] THEN <<"line", s, SubSeq(o, p + 1, Len(o))>> ELSE <<"error">>)
                 ELSE IF c = 3 THEN (IF Len(o) > p /\ o[p] = 1 /\ Len(o) = p + 1 + o[p + 1] THEN <<"polygon", s, SubSeq(o, p + 2, Len(o))>> ELSE <<"error">>)
                 ELSE <<"error">>
Dir == [k \in 1..Len(way) |-> way[IF rev THEN Len(way) + 1 - k ELSE k]]
Faithful == pc = "done" => (IF fmt = "wkt" THEN ReadWkt(out) ELSE ReadWkb(out)) = <<kind, srid, Dir>>
Refusal == pc = "refused" <=> kind = "polygon" /\ ~Closed(way)
=============================================================================
