---------------------------- MODULE XmlFileTrace ----------------------------
(* C05, C06: the text of a written OSM XML file, parsed by an independent XML  *)
(* parser, must hold exactly the written objects in order, and in change files *)
(* the sections that the operations of the objects require.                    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, OsmData
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, phase, n, sec, inSec, prev
vars == <<l, s, phase, n, sec, inSec, prev>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Ev.e = name /\ l' = l + 1
S == Trace[s]
N == Len(S.types)
Obj(k) == Trace[s + k].o
Change == S.typ = "change"
Op(o) == IF ~o.vis THEN "delete" ELSE IF o.v = "1" THEN "create" ELSE "modify"

Init == l = 1 /\ s = 0 /\ phase = "idle" /\ n = 0 /\ sec = "-" /\ inSec = 0 /\ prev = "-"
Begin == /\ Is("begin") /\ phase = "idle"
         /\ s' = l /\ phase' = "input" /\ n' = 0 /\ sec' = "-" /\ inSec' = 0 /\ prev' = "-"
Write == /\ Is("write") /\ phase = "input" /\ l <= s + N /\ UNCHANGED <<s, phase, n, sec, inSec, prev>>
WDone == /\ Is("wfinal") /\ phase = "input" /\ l = s + N + 1 /\ Ev.ok
         /\ phase' = "file" /\ UNCHANGED <<s, n, sec, inSec, prev>>
Root == /\ Is("root") /\ phase = "file"
        /\ Ev.name = (IF Change THEN "osmChange" ELSE "osm")
        /\ Ev.version = "0.6" /\ Ev.gen = S.gen
        /\ phase' = (IF S.bounds = <<>> THEN "body" ELSE "bounds") /\ UNCHANGED <<s, n, sec, inSec, prev>>
Bounds == /\ Is("bounds") /\ phase = "bounds" /\ Ev.b = S.bounds
          /\ phase' = "body" /\ UNCHANGED <<s, n, sec, inSec, prev>>
Sec == /\ Is("sec") /\ phase = "body" /\ Change /\ sec = "-" /\ n < N
       /\ Ev.op = Op(Obj(n + 1)) /\ Ev.op # prev
       /\ sec' = Ev.op /\ inSec' = 0 /\ UNCHANGED <<s, phase, n, prev>>
Object == /\ Is("xobj") /\ phase = "body" /\ n < N
          /\ IF Change THEN sec = Op(Obj(n + 1)) ELSE sec = "-"
          /\ Ev.o = Stored(S.how, Obj(n + 1))
          /\ n' = n + 1 /\ inSec' = inSec + 1 /\ UNCHANGED <<s, phase, sec, prev>>
SecEnd == /\ Is("secend") /\ phase = "body" /\ sec # "-" /\ inSec > 0
          /\ n < N => Op(Obj(n + 1)) # sec
          /\ prev' = sec /\ sec' = "-" /\ UNCHANGED <<s, phase, n, inSec>>
RootEnd == /\ Is("rootend") /\ phase = "body" /\ sec = "-" /\ n = N
           /\ phase' = "idle" /\ UNCHANGED <<s, n, sec, inSec, prev>>
Next == Begin \/ Write \/ WDone \/ Root \/ Bounds \/ Sec \/ Object \/ SecEnd \/ RootEnd
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
