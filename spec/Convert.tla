------------------------------- MODULE Convert ------------------------------
(* Conversion of OSM files (C34): a file is read and written again in another  *)
(* type and encoding, any number of times.  Objects go through Stored() once   *)
(* per step.  The model shows what that means for a user: nothing but the      *)
(* visibility and the names of anonymous users can ever change, each is lost   *)
(* exactly if some step cannot hold it, and the order within a type stays.     *)
EXTENDS OsmData, FiniteSets, TLC, Json
CONSTANTS MaxSteps,   \* conversions made
          Fault,      \* contains "recycle": the reader reuses cells the writer still holds
          Gen         \* TRUE: only the chains of types and encodings, printed for replay
VARIABLES steps,      \* <<type, encoding>> of every file so far
          objs,       \* what the current file holds, in file order
          orig,
          buf,        \* during a step: cells handed to the writer, not yet written
          cell,       \* storage cells of the reader: content
          rd, phase, out
vars == <<steps, objs, orig, buf, cell, rd, phase, out>>
Encs == {"xml", "xmlgz", "xmlbz2", "pbf"}
Types == {"osm", "history", "change"}
How(s) == IF s[2] = "pbf" THEN (IF s[1] = "osm" THEN "pbf" ELSE "pbfvis") ELSE IF s[1] = "osm" THEN "xml" ELSE "xmlvis"
Hows == [k \in 1..Len(steps) |-> How(steps[k])]
Cur == steps[Len(steps)]
Obj(t, u, vis) == [t |-> t, id |-> "7", v |-> "1", ts |-> "1", cs |-> "1", uid |-> u, user |-> "u", vis |-> vis]
Objs == {Obj(t, u, v) : t \in {"n", "w"}, u \in {0, 7}, v \in BOOLEAN}
Start == IF Gen THEN {<<>>} ELSE {<<>>} \cup {<<a>> : a \in Objs} \cup {<<a, b>> : a \in Objs, b \in Objs}
Number(s) == [k \in 1..Len(s) |-> [s[k] EXCEPT !.id = ToString(k)]]
(* one compressed encoding stands for all when objects are modelled *)
File(t, e) == Gen \/ e \in {"xml", "pbf"}

Init == /\ \E t \in Types, e \in Encs : File(t, e) /\ steps = << <<t, e>> >>
        /\ \E s \in Start : orig = Number(s)
        /\ objs = [i \in 1..Len(orig) |-> Stored(How(steps[1]), orig[i])]
        /\ buf = <<>> /\ cell = <<>> /\ rd = 0 /\ phase = "file" /\ out = <<>>
Begin == /\ phase = "file" /\ Len(steps) <= MaxSteps
         /\ \E t \in Types, e \in Encs : File(t, e) /\ steps' = Append(steps, <<t, e>>)
         /\ phase' = "copy" /\ rd' = 0 /\ buf' = <<>> /\ cell' = <<>> /\ out' = <<>>
         /\ UNCHANGED <<objs, orig>>
(* The reader fills a cell and hands it over; a cell the writer still holds must not be filled again. *)
Free(c) == "recycle" \in Fault \/ \A k \in 1..Len(buf) : buf[k] # c
Read == /\ phase = "copy" /\ rd < Len(objs)
        /\ LET free == {c \in 1..Len(cell) : Free(c)}
               c == IF free # {} THEN CHOOSE x \in free : TRUE ELSE Len(cell) + 1 IN
           /\ cell' = IF c > Len(cell) THEN Append(cell, objs[rd + 1]) ELSE [cell EXCEPT ![c] = objs[rd + 1]]
           /\ buf' = Append(buf, c)
        /\ rd' = rd + 1 /\ UNCHANGED <<steps, objs, orig, phase, out>>
(* The writer writes what it holds: XML in order, PBF grouped by type. *)
Is(t, c) == cell[c].t = t
Group(b) == IF Cur[2] # "pbf" THEN b ELSE SelectSeq(b, LAMBDA c : Is("n", c)) \o SelectSeq(b, LAMBDA c : Is("w", c))
Flush == /\ phase = "copy" /\ buf # <<>>
         /\ out' = out \o [k \in 1..Len(buf) |-> Stored(How(Cur), cell[Group(buf)[k]])]
         /\ buf' = <<>> /\ UNCHANGED <<steps, objs, orig, cell, rd, phase>>
End == /\ phase = "copy" /\ rd = Len(objs) /\ buf = <<>>
       /\ objs' = out /\ out' = <<>> /\ phase' = "file" /\ cell' = <<>> /\ rd' = 0
       /\ UNCHANGED <<steps, orig, buf>>
Next == Begin \/ Read \/ Flush \/ End
Spec == Init /\ [][Next]_vars

Of(s, t) == SelectSeq(s, LAMBDA o : o.t = t)
(* per type: exactly the objects, in order, each stored by all the steps so far *)
Same == phase = "file" => \A t \in {"n", "w"} :
            Of(objs, t) = [k \in 1..Len(Of(orig, t)) |-> StoredAll(Hows, Of(orig, t)[k])]
InOrder == (phase = "file" /\ \A k \in 1..Len(Hows) : Hows[k] \in {"xml", "xmlvis"}) =>
            objs = [k \in 1..Len(orig) |-> StoredAll(Hows, orig[k])]
(* what StoredAll means, said without order *)
Used == {Hows[k] : k \in 1..Len(Hows)}
Meaning == \A k \in 1..Len(orig) : LET o == orig[k] n == StoredAll(Hows, orig[k]) IN
    /\ n.id = o.id /\ n.t = o.t
    /\ n.vis = (o.vis \/ Used \cap {"xml", "pbf"} # {})
    /\ n.user = (IF o.uid <= 0 /\ Used \cap {"xml", "xmlvis"} # {} THEN "" ELSE o.user)
    /\ StoredAll(Hows \o Hows, o) = n           \* doing it again changes nothing more
Emit == (Gen /\ phase = "file" /\ Len(steps) > MaxSteps) => PrintT("GEN " \o ToJson([steps |-> steps, hows |-> Hows]))
=============================================================================
