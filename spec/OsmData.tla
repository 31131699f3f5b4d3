------------------------------ MODULE OsmData -------------------------------
(* Abstract OSM objects and what the file formats may do to them.             *)
(* o: [t, id, v, ts, cs, uid, user, vis, tags, x, y, nodes, mem]               *)
(* 64 bit numbers are decimal strings, texts are percent coded.                *)
EXTENDS Integers, Sequences

Undef == 2147483647

(* XML: users without positive id are anonymous and lose their name *)
XmlUser(o) == IF o.uid > 0 THEN o ELSE [o EXCEPT !.uid = -1, !.user = ""]
Visible(o) == [o EXCEPT !.vis = TRUE]
NoMeta(o)  == [o EXCEPT !.v = "0", !.ts = "0", !.cs = "0", !.uid = -1, !.user = "", !.vis = TRUE]

(* what a reader delivers for o, by the way it was stored *)
Stored(how, o) ==
    CASE how = "same"   -> o
      [] how = "pbf"    -> Visible(o)            \* PBF without history: no visible flags
      [] how = "pbfvis" -> o                     \* PBF history and change files
      [] how = "nometa" -> NoMeta(o)
      [] how = "xml"    -> Visible(XmlUser(o))
      [] how = "xmlvis" -> XmlUser(o)            \* history: visible attribute; change: sections
(* a file that was converted: one way of storing after the other *)
RECURSIVE StoredAll(_, _)
StoredAll(hows, o) == IF hows = <<>> THEN o ELSE StoredAll(Tail(hows), Stored(Head(hows), o))
=============================================================================
