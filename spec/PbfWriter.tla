----------------------------- MODULE PbfWriter ------------------------------
(* Design of the PBF writer (C04, C07): objects are collected in a block with  *)
(* one group per type, delta coding and interim string ids; a block is flushed *)
(* when it is full and at the end.  Decoding the file with the rules of the    *)
(* format must give back every object, per type in order.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS MaxObjs, BlockMax, Ids, Strs, Reset   \* Reset: what a flush forgets
VARIABLES written, file, groups, order, strings, lastId, n, done
vars == <<written, file, groups, order, strings, lastId, n, done>>
Types == {"n", "w"}
Objs == [t : Types, id : Ids, s : Strs]

Init == /\ written = <<>> /\ file = <<>> /\ groups = [t \in Types |-> <<>>] /\ order = <<>>
        /\ strings = <<>>   \* sequence of <<string, count>>; the interim id is the position
        /\ lastId = 0 /\ n = 0 /\ done = FALSE

(* most used first; ties in any order (here: earlier recorded first) *)
Rank(ss, k) == Cardinality({j \in 1..Len(ss) : ss[j][2] > ss[k][2] \/ (ss[j][2] = ss[k][2] /\ j < k)}) + 1
Table(ss) == [r \in 1..Len(ss) |-> ss[CHOOSE k \in 1..Len(ss) : Rank(ss, k) = r][1]]
MapIds(g, ss) == [i \in 1..Len(g) |-> [g[i] EXCEPT !.sid = Rank(ss, @)]]

Block(gs, ord, ss) == [table |-> Table(ss),          \* index 0 is implicit and empty
                       groups |-> [i \in 1..Len(ord) |-> <<ord[i], MapIds(gs[ord[i]], ss)>>]]
Find(ss, x) == IF \E k \in 1..Len(ss) : ss[k][1] = x THEN CHOOSE k \in 1..Len(ss) : ss[k][1] = x ELSE 0

AddTo(o, gs, ord, ss, lid) ==
    LET k == Find(ss, o.s)
        ss2 == IF k = 0 THEN Append(ss, <<o.s, 1>>) ELSE [ss EXCEPT ![k][2] = @ + 1]
        k2 == IF k = 0 THEN Len(ss2) ELSE k
        raw == [id |-> IF o.t = "n" THEN o.id - lid ELSE o.id, sid |-> k2]
    IN /\ groups' = [gs EXCEPT ![o.t] = Append(@, raw)]
       /\ order' = IF o.t \in {ord[i] : i \in 1..Len(ord)} THEN ord ELSE Append(ord, o.t)
       /\ strings' = ss2
       /\ lastId' = IF o.t = "n" THEN o.id ELSE lid

WriteIntoBlock == /\ ~done /\ Len(written) < MaxObjs /\ n < BlockMax
                  /\ \E o \in Objs : written' = Append(written, o) /\ AddTo(o, groups, order, strings, lastId)
                  /\ n' = n + 1 /\ UNCHANGED <<file, done>>
(* the block is full: store it, start afresh, then add the object *)
FlushAndWrite == /\ ~done /\ Len(written) < MaxObjs /\ n = BlockMax
                 /\ file' = Append(file, Block(groups, order, strings))
                 /\ \E o \in Objs : /\ written' = Append(written, o)
                                    /\ AddTo(o, [t \in Types |-> <<>>], <<>>,
                                             IF "strings" \in Reset THEN <<>> ELSE strings,
                                             IF "delta" \in Reset THEN 0 ELSE lastId)
                 /\ n' = 1 /\ UNCHANGED done
Final == /\ ~done /\ done' = TRUE
         /\ file' = IF n > 0 THEN Append(file, Block(groups, order, strings)) ELSE file
         /\ UNCHANGED <<written, groups, order, strings, lastId, n>>
Next == WriteIntoBlock \/ FlushAndWrite \/ Final
Spec == Init /\ [][Next]_vars

(* ---- the published format, as any reader decodes it ---- *)
RECURSIVE Sum(_, _)
Sum(g, i) == IF i = 0 THEN 0 ELSE g[i].id + Sum(g, i - 1)
DecodeGroup(t, g, table) == [i \in 1..Len(g) |->
    [t |-> t, id |-> IF t = "n" THEN Sum(g, i) ELSE g[i].id, s |-> table[g[i].sid]]]
DecodeBlock(b) == FlattenSeq([i \in 1..Len(b.groups) |-> DecodeGroup(b.groups[i][1], b.groups[i][2], b.table)])
Decoded == FlattenSeq([i \in 1..Len(file) |-> DecodeBlock(file[i])])
OfType(q, t) == SelectSeq(q, LAMBDA o : o.t = t)

RoundTrip == done => \A t \in Types : OfType(Decoded, t) = OfType(written, t)
PrefixAlways == \A t \in Types : IsPrefix(OfType(Decoded, t), OfType(written, t))
BlockSizes == \A i \in 1..Len(file) : LET k == Len(DecodeBlock(file[i])) IN k >= 1 /\ k <= BlockMax
OneKindPerGroup == \A i \in 1..Len(file) : \A g, h \in 1..Len(file[i].groups) : g # h => file[i].groups[g][1] # file[i].groups[h][1]
TableDistinct == \A i \in 1..Len(file) : LET tb == file[i].table IN \A a, b \in 1..Len(tb) : a # b => tb[a] # tb[b]
SidsResolve == \A i \in 1..Len(file) : \A g \in 1..Len(file[i].groups) : \A k \in 1..Len(file[i].groups[g][2]) :
                  file[i].groups[g][2][k].sid \in 1..Len(file[i].table)
=============================================================================
