--------------------------- MODULE PbfDecodeTrace ---------------------------
(* C13: joint trace of a PBF file, split into its raw items by an independent  *)
(* wire-level decoder, and the objects the library delivered while reading it. *)
(* The specification decodes each item by the published format.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Big
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, phase, blk, grp, grpN, acc, pend
vars == <<l, phase, blk, grp, grpN, acc, pend>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Ev.e = name /\ l' = l + 1
ZeroAcc == [id |-> Zero, lat |-> Zero, lon |-> Zero, ts |-> Zero, cs |-> Zero, uid |-> Zero, sid |-> 0]
None == <<>>
Init == l = 1 /\ phase = "idle" /\ blk = 0 /\ grp = 0 /\ grpN = 0 /\ acc = ZeroAcc /\ pend = None
Begin == /\ Is("begin") /\ phase = "idle" /\ phase' = "file" /\ blk' = 0 /\ grp' = 0 /\ grpN' = 0 /\ acc' = ZeroAcc /\ pend' = None
Block == /\ Is("block") /\ phase = "file" /\ pend = None /\ blk' = l /\ grp' = 0 /\ grpN' = 0 /\ acc' = ZeroAcc
         /\ UNCHANGED <<phase, pend>>
Bk == Trace[blk]
Str(i) == Bk.strings[i + 1]
Tags(ks, vs) == [i \in 1..Len(ks) |-> <<Str(ks[i]), Str(vs[i])>>]
GroupOf == IF grp > 0 /\ grpN < Bk.groups[grp].n THEN grp ELSE grp + 1
Fresh == GroupOf # grp
GroupStep == /\ blk > 0 /\ GroupOf <= Len(Bk.groups) /\ grp' = GroupOf /\ grpN' = (IF Fresh THEN 1 ELSE grpN + 1)
Times(x, k) == IF k % 1000 = 0 THEN Mul(Mul(x, 1000), k \div 1000) ELSE Mul(x, k)
NoInfo == [v |-> Zero, ts |-> Zero, cs |-> Zero, uid |-> OfInt(-1), user |-> "", vis |-> <<>>]
InfoOf(i) == [v |-> i.v, ts |-> Times(i.ts, Bk.date), cs |-> i.cs, uid |-> i.uid, user |-> Str(i.sid), vis |-> i.vis]
Nano(raw, off) == Add(off, Times(raw, Bk.gran))
Dense == /\ Is("dn") /\ phase = "file" /\ pend = None /\ GroupStep
         /\ LET a0 == IF Fresh THEN ZeroAcc ELSE acc
                M == Ev.info # <<>>
                a1 == [id  |-> Wrap(Add(a0.id, Ev.id)), lat |-> Wrap(Add(a0.lat, Ev.lat)), lon |-> Wrap(Add(a0.lon, Ev.lon)),
                       ts |-> IF M THEN Wrap(Add(a0.ts, Ev.info.ts)) ELSE Zero, cs |-> IF M THEN Wrap(Add(a0.cs, Ev.info.cs)) ELSE Zero,
                       uid |-> IF M THEN Wrap32(Add(a0.uid, Ev.info.uid)) ELSE Zero, sid |-> IF M THEN a0.sid + Ev.info.sid ELSE 0]
            IN /\ acc' = a1
               /\ pend' = [t |-> "n", id |-> a1.id, lat |-> Nano(a1.lat, Bk.lat_off), lon |-> Nano(a1.lon, Bk.lon_off),
                           tags |-> Tags(Ev.keys, Ev.vals), refs |-> <<>>, mem |-> <<>>,
                           info |-> IF M THEN InfoOf([v |-> Ev.info.v, ts |-> a1.ts, cs |-> a1.cs, uid |-> a1.uid, sid |-> a1.sid, vis |-> Ev.info.vis]) ELSE NoInfo]
         /\ UNCHANGED <<phase, blk>>
RECURSIVE Sums(_, _, _)
Sums(ds, i, a) == IF i > Len(ds) THEN <<>> ELSE LET x == Wrap(Add(a, ds[i])) IN <<x>> \o Sums(ds, i + 1, x)
Item == /\ Is("item") /\ phase = "file" /\ pend = None /\ GroupStep
        /\ pend' = [t |-> Ev.t, id |-> Ev.id, tags |-> Tags(Ev.keys, Ev.vals),
                    lat |-> IF Ev.t = "n" THEN Nano(Ev.lat, Bk.lat_off) ELSE Zero, lon |-> IF Ev.t = "n" THEN Nano(Ev.lon, Bk.lon_off) ELSE Zero,
                    refs |-> IF Ev.t = "n" THEN <<>> ELSE Sums(Ev.refs, 1, Zero),
                    mem |-> IF Ev.t # "r" THEN <<>> ELSE [i \in 1..Len(Ev.roles) |-> <<(<<"n","w","r">>)[Ev.types[i] + 1], Str(Ev.roles[i])>>],
                    info |-> IF Ev.info = <<>> THEN NoInfo ELSE InfoOf(Ev.info)]
        /\ acc' = ZeroAcc /\ UNCHANGED <<phase, blk>>
(* |unit * x - exact| < unit: exact whenever x can represent it *)
Close(x, exact, unit) == Less(AbsV(Sub(Times(x, unit), exact)), OfInt(unit))
Obj == /\ Is("obj") /\ phase = "file" /\ pend # None
       /\ LET o == Ev.o IN
          /\ o.t = pend.t /\ Ev.b.id = pend.id /\ Ev.b.v = pend.info.v /\ Ev.b.cs = pend.info.cs
          /\ Close(Ev.b.ts, pend.info.ts, 1000)
          /\ OfInt(o.uid) = pend.info.uid /\ o.user = pend.info.user
          /\ o.vis = (IF pend.info.vis = <<>> THEN TRUE ELSE pend.info.vis[1] # 0)
          /\ o.tags = pend.tags /\ Ev.b.refs = pend.refs
          /\ [i \in 1..Len(o.mem) |-> <<o.mem[i][1], o.mem[i][3]>>] = pend.mem
          /\ IF o.t = "n" THEN Close(OfInt(o.x), pend.lon, 100) /\ Close(OfInt(o.y), pend.lat, 100) ELSE TRUE
       /\ pend' = None /\ UNCHANGED <<phase, blk, grp, grpN, acc>>
Ret == /\ Is("ret") /\ phase = "file" /\ pend = None /\ phase' = "idle" /\ UNCHANGED <<blk, grp, grpN, acc, pend>>
Next == Begin \/ Block \/ Dense \/ Item \/ Obj \/ Ret
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
