---------------------------- MODULE PbfFileTrace ----------------------------
(* C07: the bytes of a written PBF file, split by an independent wire-level     *)
(* decoder into raw items (string indexes, deltas, unscaled integers), must     *)
(* decode under the published format to exactly the objects that were written,  *)
(* and obey the format's framing rules.  Integers are Big tuples.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, OsmData, Big
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, phase,
          blk,      \* index of the open block event
          grp,      \* index in blk's group list of the open group, 0 before the first
          grpN,     \* objects seen in the open group
          inBlk,    \* objects seen in the open block
          cnt,      \* objects decoded per type
          acc       \* delta accumulators of the open dense group
vars == <<l, s, phase, blk, grp, grpN, inBlk, cnt, acc>>
Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Ev.e = name /\ l' = l + 1
S == Trace[s]
MaxBlobHeader == 65536
MaxBlob == 33554432
MaxObjects == 8000
ZeroAcc == [id |-> Zero, lat |-> Zero, lon |-> Zero, ts |-> Zero, cs |-> Zero, uid |-> Zero, sid |-> 0]

Init == /\ l = 1 /\ s = 0 /\ phase = "idle" /\ blk = 0 /\ grp = 0 /\ grpN = 0 /\ inBlk = 0
        /\ cnt = [t \in {"n","w","r"} |-> 0] /\ acc = ZeroAcc
Begin == /\ Is("begin") /\ phase = "idle"
         /\ s' = l /\ phase' = "input" /\ blk' = 0 /\ grp' = 0 /\ grpN' = 0 /\ inBlk' = 0
         /\ cnt' = [t \in {"n","w","r"} |-> 0] /\ acc' = ZeroAcc
Write == /\ Is("write") /\ phase = "input" /\ l <= s + Len(S.types)
         /\ UNCHANGED <<s, phase, blk, grp, grpN, inBlk, cnt, acc>>
WDone == /\ Is("wfinal") /\ phase = "input" /\ l = s + Len(S.types) + 1 /\ Ev.ok
         /\ phase' = "file"
         /\ UNCHANGED <<s, blk, grp, grpN, inBlk, cnt, acc>>

BlobOk(e) == /\ e.head > 0 /\ e.head < MaxBlobHeader
             /\ e.size > 0 /\ e.size <= MaxBlob
             /\ e.raw_size = e.len /\ e.len <= MaxBlob
             /\ e.comp = S.comp
(* exactly the features used, the schema version among them *)
Features == {"OsmSchema-V0.6"} \cup (IF S.dense THEN {"DenseNodes"} ELSE {})
                               \cup (IF S.typ = "history" THEN {"HistoricalInformation"} ELSE {})
Header == /\ Is("header") /\ phase = "file"
          /\ BlobOk(Ev)
          /\ {Ev.required[i] : i \in 1..Len(Ev.required)} = Features
          /\ Len(Ev.required) = (IF S.dense THEN 2 ELSE 1) + (IF S.typ = "history" THEN 1 ELSE 0)
          /\ Ev.optional = <<>>
          /\ Ev.gen = S.gen
          /\ IF S.bounds = <<>> THEN Ev.bbox = <<>>
             ELSE \A i \in 1..4 : Ev.bbox[i] = Mul(OfInt(S.bounds[i]), 100)
          /\ phase' = "blocks"
          /\ UNCHANGED <<s, blk, grp, grpN, inBlk, cnt, acc>>

GroupsOk(e) == \A i \in 1..Len(e.groups) : Len(e.groups[i].kinds) = 1
                    /\ (e.groups[i].kinds[1] = "d" => e.groups[i].messages = 1)
BlockDone == IF blk = 0 THEN TRUE ELSE IF grp # Len(Trace[blk].groups) THEN FALSE ELSE grpN = Trace[blk].groups[grp].n
Block == /\ Is("block") /\ phase = "blocks" /\ BlockDone
         /\ BlobOk(Ev)
         /\ Len(Ev.strings) >= 1 /\ Ev.strings[1] = ""
         /\ Len(Ev.groups) >= 1 /\ GroupsOk(Ev)
         /\ Ev.count >= 1 /\ Ev.count <= MaxObjects
         /\ Ev.gran = S.gran /\ Ev.date = S.date
         /\ Ev.lat_off = Zero /\ Ev.lon_off = Zero
         /\ blk' = l /\ grp' = 0 /\ grpN' = 0 /\ inBlk' = 0 /\ acc' = ZeroAcc
         /\ UNCHANGED <<s, phase, cnt>>

Str(i) == Trace[blk].strings[i + 1]
InTable(i) == i >= 0 /\ i < Len(Trace[blk].strings)
KeyOk(i) == InTable(i) /\ i # 0
TagsOk(ks, vs) == Len(ks) = Len(vs) /\ \A i \in 1..Len(ks) : KeyOk(ks[i]) /\ InTable(vs[i])
Tags(ks, vs) == [i \in 1..Len(ks) |-> <<Str(ks[i]), Str(vs[i])>>]

(* the next item belongs to the open group or starts the next one *)
GroupOf == IF grp > 0 /\ grpN < Trace[blk].groups[grp].n THEN grp ELSE grp + 1
Fresh == GroupOf # grp
Kind == Trace[blk].groups[GroupOf].kinds[1]
GroupStep == /\ blk > 0 /\ GroupOf <= Len(Trace[blk].groups)
             /\ grp' = GroupOf /\ grpN' = (IF Fresh THEN 1 ELSE grpN + 1) /\ inBlk' = inBlk + 1

Expected(t) == Stored(S.how, Trace[s + S.idx[t][cnt[t] + 1]].o)
ExpectedBig(t) == Trace[s + S.idx[t][cnt[t] + 1]].b      \* id, ts, cs, refs as Big tuples
Take(t) == cnt[t] < Len(S.idx[t]) /\ cnt' = [cnt EXCEPT ![t] = @ + 1]

(* 100 * x = granularity * raw for representable values *)
CoordOk(raw, x) == Mul(raw, S.gran) = Mul(OfInt(x), 100)
TsOk(raw, b) == Mul(raw, S.date) = Mul(b.ts, 1000)
Meta == S.how # "nometa"
Vis == S.how = "pbfvis"

InfoOk(i, o, b) == \* i: v, ts, cs, uid, sid, vis  (after undoing deltas)
    /\ i.v = b.v /\ TsOk(i.ts, b) /\ i.cs = b.cs /\ i.uid = OfInt(o.uid)
    /\ InTable(i.sid) /\ Str(i.sid) = o.user
    /\ IF Vis THEN Len(i.vis) = 1 /\ (i.vis[1] # 0) = o.vis ELSE i.vis = <<>>

Dense == /\ Is("dn") /\ phase = "blocks" /\ GroupStep /\ Kind = "d" /\ S.dense
         /\ Take("n")
         /\ LET a0 == IF Fresh THEN ZeroAcc ELSE acc
                a1 == [id  |-> Wrap(Add(a0.id, Ev.id)), lat |-> Wrap(Add(a0.lat, Ev.lat)), lon |-> Wrap(Add(a0.lon, Ev.lon)),
                       ts |-> IF Meta THEN Wrap(Add(a0.ts, Ev.info.ts)) ELSE Zero, cs |-> IF Meta THEN Wrap(Add(a0.cs, Ev.info.cs)) ELSE Zero,
                       uid |-> IF Meta THEN Add(a0.uid, Ev.info.uid) ELSE Zero, sid |-> IF Meta THEN a0.sid + Ev.info.sid ELSE 0]
                o == Expected("n")
                b == ExpectedBig("n")
            IN /\ acc' = [a1 EXCEPT !.uid = Wrap32(@)]
               /\ a1.id = b.id
               /\ CoordOk(a1.lat, o.y) /\ CoordOk(a1.lon, o.x)
               /\ TagsOk(Ev.keys, Ev.vals) /\ Tags(Ev.keys, Ev.vals) = o.tags
               /\ IF Meta THEN InfoOk([v |-> Ev.info.v, ts |-> a1.ts, cs |-> a1.cs, uid |-> Wrap32(a1.uid), sid |-> a1.sid, vis |-> Ev.info.vis], o, b)
                          ELSE Ev.info = <<>>
         /\ UNCHANGED <<s, phase, blk>>

RECURSIVE Sums(_, _, _)
Sums(ds, i, a) == IF i > Len(ds) THEN <<>> ELSE LET x == Wrap(Add(a, ds[i])) IN <<x>> \o Sums(ds, i + 1, x)

Item == /\ Is("item") /\ phase = "blocks" /\ GroupStep /\ Kind = Ev.t
        /\ Ev.t = "n" => ~S.dense
        /\ Take(Ev.t)
        /\ LET o == Expected(Ev.t)
               b == ExpectedBig(Ev.t)
           IN /\ Ev.id = b.id
              /\ TagsOk(Ev.keys, Ev.vals) /\ Tags(Ev.keys, Ev.vals) = o.tags
              /\ IF Meta THEN Ev.info # <<>> /\ InfoOk(Ev.info, o, b) ELSE Ev.info = <<>>
              /\ Ev.t = "n" => CoordOk(Ev.lat, o.y) /\ CoordOk(Ev.lon, o.x)
              /\ Ev.t \in {"w", "r"} => Sums(Ev.refs, 1, Zero) = b.refs
              /\ Ev.t = "r" => /\ Len(Ev.roles) = Len(o.mem) /\ Len(Ev.types) = Len(o.mem) /\ Len(Ev.refs) = Len(o.mem)
                               /\ \A i \in 1..Len(o.mem) : InTable(Ev.roles[i]) /\ Str(Ev.roles[i]) = o.mem[i][3]
                                                          /\ (<<"n","w","r">>)[Ev.types[i] + 1] = o.mem[i][1]
        /\ acc' = ZeroAcc
        /\ UNCHANGED <<s, phase, blk>>

(* end of file: everything written is in it *)
Eof == /\ Is("eof") /\ phase = "blocks" /\ BlockDone
       /\ \A t \in {"n","w","r"} : cnt[t] = Len(S.idx[t])
       /\ phase' = "idle"
       /\ UNCHANGED <<s, blk, grp, grpN, inBlk, cnt, acc>>

Next == Begin \/ Write \/ WDone \/ Header \/ Block \/ Dense \/ Item \/ Eof
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
