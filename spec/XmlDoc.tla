------------------------------- MODULE XmlDoc -------------------------------
(* Design of the OSM XML writer and reader (C05, C06).  A document is a        *)
(* sequence of open/close tokens.  It is built either by the writer (sections  *)
(* in change files follow the operation of each object) or by an arbitrary     *)
(* other program (any order and number of sections, also empty ones, elements  *)
(* Osmium does not know).  The reader is the context machine of the library.   *)
(* Reading back must give exactly the objects, those inside delete sections    *)
(* invisible.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxObjs, MaxToks, Kinds, Fault, Gen
VARIABLES by,      \* "writer" or "other": who builds the document
          typ,     \* osm or change
          toks,    \* the document
          objs,    \* what it holds: [t, op, kids]
          sec,     \* section currently open, "-" if none
          phase,   \* build, read, done
          i,       \* next token to read
          ctx, indel, cur, out
vars == <<by, typ, toks, objs, sec, phase, i, ctx, indel, cur, out>>
Ops == {"create", "modify", "delete"}
KidsOf(t) == CASE t = "n" -> {"tag"} [] t = "w" -> {"nd", "tag"} [] t = "r" -> {"member", "tag"}
O(n) == [k |-> "o", n |-> n]
C(n) == [k |-> "c", n |-> n]
RECURSIVE KidToks(_)
KidToks(ks) == IF ks = <<>> THEN <<>> ELSE <<O(Head(ks)), C(Head(ks))>> \o KidToks(Tail(ks))
ObjToks(o) == <<O(o.t)>> \o KidToks(o.kids) \o <<C(o.t)>>
KidSeqs(t) == {<<>>} \cup {<<a>> : a \in KidsOf(t)} \cup (IF t = "n" THEN {} ELSE {<<a, b>> : a \in KidsOf(t), b \in KidsOf(t)})
NoObj == [t |-> "-", vis |-> TRUE, kids |-> <<>>]

Init == /\ by \in {"writer", "other"} /\ typ \in {"osm", "change"}
        /\ toks = <<O("root")>> /\ objs = <<>> /\ sec = "-" /\ phase = "build"
        /\ i = 1 /\ ctx = "root" /\ indel = FALSE /\ cur = NoObj /\ out = <<>>
RUnch == UNCHANGED <<by, typ, i, ctx, indel, cur, out>>

(* the library's writer *)
SwitchTo(op) == IF op = sec THEN <<>>
                ELSE (IF sec # "-" /\ "noclose" \notin Fault THEN <<C(sec)>> ELSE <<>>) \o (IF op # "-" THEN <<O(op)>> ELSE <<>>)
WObj == /\ phase = "build" /\ by = "writer" /\ Len(objs) < MaxObjs
        /\ \E t \in Kinds, op \in (IF typ = "change" THEN Ops ELSE {"-"}) : \E ks \in KidSeqs(t) :
              LET o == [t |-> t, op |-> op, kids |-> ks] IN
              /\ toks' = toks \o SwitchTo(op) \o ObjToks(o)
              /\ objs' = Append(objs, o) /\ sec' = op
        /\ UNCHANGED phase /\ RUnch
WFinal == /\ phase = "build" /\ by = "writer"
          /\ toks' = toks \o SwitchTo("-") \o <<C("root")>>
          /\ sec' = "-" /\ phase' = "read" /\ UNCHANGED objs /\ RUnch

(* any other program *)
Room(n) == Len(toks) + n <= MaxToks
EOpen == /\ phase = "build" /\ by = "other" /\ sec = "-" /\ typ = "change" /\ Room(1)
         /\ \E op \in Ops : toks' = Append(toks, O(op)) /\ sec' = op
         /\ UNCHANGED <<objs, phase>> /\ RUnch
EClose == /\ phase = "build" /\ by = "other" /\ sec # "-"
          /\ toks' = Append(toks, C(sec)) /\ sec' = "-"
          /\ UNCHANGED <<objs, phase>> /\ RUnch
EUnknown == /\ phase = "build" /\ by = "other" /\ Room(2)
            /\ toks' = toks \o <<O("x"), C("x")>>
            /\ UNCHANGED <<objs, sec, phase>> /\ RUnch
EObj == /\ phase = "build" /\ by = "other" /\ Len(objs) < MaxObjs /\ Room(2)
        /\ \E t \in Kinds : \E ks \in {<<>>, <<"tag">>, <<"x">>} :
              LET o == [t |-> t, op |-> sec, kids |-> ks] IN
              /\ Room(2 + 2 * Len(ks))
              /\ toks' = toks \o ObjToks(o)
              /\ objs' = Append(objs, [o EXCEPT !.kids = SelectSeq(ks, LAMBDA x : x # "x")])
        /\ UNCHANGED <<sec, phase>> /\ RUnch
EEnd == /\ phase = "build" /\ by = "other" /\ sec = "-"
        /\ toks' = Append(toks, C("root")) /\ phase' = "read"
        /\ (Gen => PrintT("GEN " \o ToJson([typ |-> typ, toks |-> toks'])))
        /\ UNCHANGED <<objs, sec>> /\ RUnch

(* the library's reader *)
T == toks[i]
Step == i' = i + 1 /\ UNCHANGED <<by, typ, toks, objs, sec, phase>>
RRoot == /\ phase = "read" /\ i <= Len(toks) /\ ctx = "root" /\ T.k = "o"
         /\ ctx' = "top" /\ Step /\ UNCHANGED <<indel, cur, out>>
RTopOpen == /\ phase = "read" /\ i <= Len(toks) /\ ctx = "top" /\ T.k = "o"
            /\ IF T.n \in {"n", "w", "r"}
               THEN ctx' = "obj" /\ cur' = [t |-> T.n, vis |-> ~indel, kids |-> <<>>] /\ UNCHANGED indel
               ELSE UNCHANGED <<ctx, cur>> /\ indel' = IF T.n = "delete" THEN TRUE ELSE indel
            /\ Step /\ UNCHANGED out
RTopClose == /\ phase = "read" /\ i <= Len(toks) /\ ctx = "top" /\ T.k = "c"
             /\ ctx' = (IF T.n = "root" THEN "root" ELSE ctx)
             /\ indel' = (IF T.n = "delete" /\ "sticky" \notin Fault THEN FALSE ELSE indel)
             /\ Step /\ UNCHANGED <<cur, out>>
RKid == /\ phase = "read" /\ i <= Len(toks) /\ ctx = "obj" /\ T.k = "o"
        /\ ctx' = "inobj"
        /\ cur' = (IF T.n \in KidsOf(cur.t) THEN [cur EXCEPT !.kids = Append(@, T.n)] ELSE cur)
        /\ Step /\ UNCHANGED <<indel, out>>
RKidEnd == /\ phase = "read" /\ i <= Len(toks) /\ ctx = "inobj" /\ T.k = "c"
           /\ ctx' = "obj" /\ Step /\ UNCHANGED <<indel, cur, out>>
RObjEnd == /\ phase = "read" /\ i <= Len(toks) /\ ctx = "obj" /\ T.k = "c"
           /\ out' = Append(out, cur) /\ ctx' = "top" /\ cur' = NoObj
           /\ Step /\ UNCHANGED indel
RDone == /\ phase = "read" /\ i > Len(toks) /\ phase' = "done"
         /\ UNCHANGED <<by, typ, toks, objs, sec, i, ctx, indel, cur, out>>
Next == WObj \/ WFinal \/ EOpen \/ EClose \/ EUnknown \/ EObj \/ EEnd
        \/ RRoot \/ RTopOpen \/ RTopClose \/ RKid \/ RKidEnd \/ RObjEnd \/ RDone
Spec == Init /\ [][Next]_vars

Want(o) == [t |-> o.t, vis |-> o.op # "delete", kids |-> o.kids]
ReadsBack == phase = "done" => out = [j \in 1..Len(objs) |-> Want(objs[j])]
Prefix == phase = "read" => Len(out) <= Len(objs) /\ \A j \in 1..Len(out) : out[j] = Want(objs[j])
Depth(n) == Cardinality({j \in 1..n : toks[j].k = "o"}) - Cardinality({j \in 1..n : toks[j].k = "c"})
WellFormed == phase # "build" => Depth(Len(toks)) = 0
(* sections the writer makes: not nested, not empty, as long as possible *)
Sections == (by = "writer" /\ phase # "build") =>
    \A j \in 1..Len(toks) : toks[j].n \in Ops =>
        IF toks[j].k = "o"
        THEN Depth(j) = 2 /\ toks[j + 1].n \in {"n", "w", "r"}
        ELSE toks[j + 1].n = "root" \/ (toks[j + 1].k = "o" /\ toks[j + 1].n \in Ops \ {toks[j].n})
ReaderEnds == phase = "done" => ctx = "root" /\ ~indel
Bound == Gen => phase = "build"
=============================================================================
