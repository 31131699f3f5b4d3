------------------------------ MODULE FileTrace -----------------------------
(* C11: operations on real OSMFile objects; after every operation the event    *)
(* lists fd() of every slot, the descriptors open in the process beyond those  *)
(* open before, the number of unreaped children and the attributes.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, phase, ex, kind, fd, okind, child, read, os, kids, forks, strange
Slots == 1..4
Kinds == {"inplain", "ingz", "inbad", "missing", "outplain", "outgz", "outfail"}
F == INSTANCE FileLifecycle WITH Fault <- {}
vs == <<ex, kind, fd, okind, child, read, os, kids, forks, strange>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = "op" /\ Ev.op = n /\ l' = l + 1
Init == l = 1 /\ phase = "idle" /\ F!FInit
Begin == /\ l <= Len(Trace) /\ Ev.e = "begin" /\ l' = l + 1 /\ phase' = "run"
         /\ os = {} /\ kids = 0 /\ ~strange /\ phase = "idle" /\ UNCHANGED vs
End == /\ l <= Len(Trace) /\ Ev.e = "end" /\ l' = l + 1 /\ phase = "run" /\ phase' = "idle"
       /\ (\A s \in Slots : ~ex[s]) /\ ~strange /\ forks
       /\ UNCHANGED vs
(* name, type and encoding of each kind *)
Attr(k) == CASE k = "inplain" -> <<"in.osh", ".osh", "">> [] k = "ingz" -> <<"in.osc.gz", ".osc", ".gz">> [] k = "inbad" -> <<"bad.osm.bz2", ".osm", ".bz2">>
             [] k = "missing" -> <<"missing.osm.pbf", ".osm", ".pbf">> [] k = "outplain" -> <<"out.osh.pbf", ".osh", ".pbf">>
             [] k = "outgz" -> <<"out.osm.gz", ".osm", ".gz">> [] k = "outfail" -> <<"nodir/x.osc.bz2", ".osc", ".bz2">> [] k = "-" -> <<"", "", "">>
Seen == /\ \A s \in Slots : Ev.fd[s] = fd'[s]
        /\ {Ev.open[i] : i \in 1..Len(Ev.open)} = os' /\ Len(Ev.open) = Cardinality(os')
        /\ Ev.kids = kids' /\ (strange' <=> Ev.strange)
        /\ \A s \in Slots : ex'[s] => Ev.attr[s] = Attr(kind'[s])
        /\ UNCHANGED phase
Op == /\ phase = "run"
      /\ \/ Is("new") /\ Ev.res = "ok" /\ F!New(Ev.a, Ev.k)
         \/ Is("ren") /\ Ev.res = "ok" /\ F!Rename(Ev.a, Ev.k)
         \/ Is("copy") /\ Ev.res = "ok" /\ F!Copy(Ev.a, Ev.b)
         \/ Is("assign") /\ F!Assign(Ev.a, Ev.b, Ev.res)
         \/ Is("close") /\ F!Close(Ev.a, Ev.res)
         \/ Is("destroy") /\ Ev.res = "ok" /\ F!Destroy(Ev.a)
         \/ Is("open") /\ F!Open(Ev.a, Ev.res, Ev.fd[Ev.a])
         \/ Is("read") /\ Ev.res = "ok" /\ F!ReadAll(Ev.a)
         \/ Is("write") /\ Ev.res = "ok" /\ F!Write(Ev.a)
         \/ Is("forks") /\ F!Forks(Ev.a = 1)
         \/ Is("stranger") /\ F!Stranger
         \/ Is("reap") /\ Ev.res = "ok" /\ F!Reap
         \/ Is("skip") /\ UNCHANGED vs
      /\ Seen
(* several outputs at once: each was closed in time and holds its own data *)
Multi == /\ l <= Len(Trace) /\ Ev.e = "multi" /\ l' = l + 1 /\ phase = "run"
         /\ Ev.opened = Ev.want /\ Ev.closed = Ev.want /\ Ev.right = Ev.want /\ Ev.leftfds = 0 /\ Ev.kids = 0
         /\ UNCHANGED phase /\ UNCHANGED vs
Next == Begin \/ Op \/ Multi \/ End
Spec == Init /\ [][Next]_<<l, phase, vs>>
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
