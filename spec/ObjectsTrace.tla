----------------------------- MODULE ObjectsTrace ----------------------------
(* Trace specification for C28. The state is the value of every slot; every       *)
(* event is an operation with its outcome and the values all slots show after it. *)
(* Numbers are decimal texts, texts are percent-coded bytes, coordinates ints.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, o
vars == <<l, o>>
Ev == Trace[l]
Undef == 2147483647
None == [t |-> "-"]
Blank(t) == IF t = "m" THEN [t |-> "m", mem |-> <<>>] ELSE [t |-> t, id |-> "0", version |-> "0", changeset |-> "0", timestamp |-> "0", endtime |-> "0", uid |-> "-1", user |-> "", visible |-> "true",
             tags |-> <<>>, x |-> Undef, y |-> Undef, nodes |-> <<>>, mem |-> <<>>]
Attrs == {"id", "version", "changeset", "timestamp", "endtime", "uid", "user", "visible"}
S == Ev.s
Has(s) == s \in DOMAIN o /\ o[s].t # "-"
(* a decimal number as text without leading zeros or plus sign *)
RECURSIVE Plain(_), Join(_)
Plain(d) == IF Len(d) > 1 /\ d[1] = "0" THEN Plain(SubSeq(d, 2, Len(d))) ELSE d
Join(d) == IF d = <<>> THEN "" ELSE d[1] \o Join(SubSeq(d, 2, Len(d)))
Canon(d) == IF d[1] = "-" THEN "-" \o Join(Plain(SubSeq(d, 2, Len(d)))) ELSE IF d[1] = "+" THEN Join(Plain(SubSeq(d, 2, Len(d)))) ELSE Join(Plain(d))
SetA(s, a, v) == [o EXCEPT ![s] = [@ EXCEPT !.id = IF a = "id" THEN v ELSE @, !.version = IF a = "version" THEN v ELSE @, !.changeset = IF a = "changeset" THEN v ELSE @,
    !.timestamp = IF a = "timestamp" THEN v ELSE @, !.endtime = IF a = "endtime" THEN v ELSE @, !.uid = IF a = "uid" THEN v ELSE @,
    !.user = IF a = "user" THEN v ELSE @, !.visible = IF a = "visible" THEN v ELSE @]]
(* the operations; each gives the new value of all slots *)
TextValue == CASE Ev.a \in {"id", "version", "changeset", "uid"} -> Canon(Ev.d)
               [] Ev.a = "visible" -> (IF Ev.v = "false" THEN "false" ELSE "true")
               [] OTHER -> Ev.v                          \* user name; the value of a timestamp text
Round(e7, d) == IF d <= 4 THEN e7 ELSE IF e7 < 0 THEN e7 - 1 ELSE e7 + 1
Refused(n) == n >= 1022                                  \* 1021 is left open
Result ==
    CASE Ev.op = "new"      -> [o EXCEPT ![S] = Blank(Ev.t)]
      [] Ev.op = "del"      -> [o EXCEPT ![S] = None]
      [] Ev.op = "copy"     -> [o EXCEPT ![S] = o[Ev.from]]
      [] Ev.op = "num"      -> SetA(S, Ev.a, Ev.v)
      [] Ev.op = "text"     -> IF Ev.a = "user" /\ Refused(Ev.n) THEN o ELSE SetA(S, Ev.a, TextValue)
      [] Ev.op = "attr"     -> IF Ev.a \notin (Attrs \ {"endtime"}) \/ (Ev.a = "user" /\ Refused(Ev.n)) THEN o ELSE SetA(S, Ev.a, TextValue)
      [] Ev.op = "badtime"  -> o
      [] Ev.op = "tag"      -> [o EXCEPT ![S].tags = Append(@, <<Ev.k, Ev.v>>)]
      [] Ev.op = "cleartags"-> [o EXCEPT ![S].tags = <<>>]
      [] Ev.op = "tags"     -> [o EXCEPT ![S].tags = o[Ev.from].tags]
      [] Ev.op = "ref"      -> [o EXCEPT ![S].nodes = Append(@, <<Ev.r, Ev.x, Ev.y>>)]
      [] Ev.op = "setref"   -> [o EXCEPT ![S].nodes[Ev.i + 1] = <<Ev.r, @[2], @[3]>>]
      [] Ev.op = "setpos"   -> [o EXCEPT ![S].nodes[Ev.i + 1] = <<@[1], Ev.x, Ev.y>>]
      [] Ev.op = "insert"   -> [o EXCEPT ![S].nodes = SubSeq(@, 1, Ev.i) \o o[Ev.from].nodes \o SubSeq(@, Ev.i + 1, Len(@))]
      [] Ev.op = "clearrefs"-> [o EXCEPT ![S].nodes = <<>>]
      [] Ev.op = "mem"      -> IF Refused(Ev.n) THEN o ELSE [o EXCEPT ![S].mem = Append(@, <<Ev.t, Ev.r, Ev.v>>)]
      [] Ev.op = "setmem"   -> IF Refused(Ev.n) THEN o ELSE [o EXCEPT ![S].mem[Ev.i + 1] = <<Ev.t, Ev.r, Ev.v>>]
      [] Ev.op = "clearmem" -> [o EXCEPT ![S].mem = <<>>]
      [] Ev.op = "members"  -> [o EXCEPT ![S].mem = o[Ev.from].mem]
      [] Ev.op = "pos"      -> [o EXCEPT ![S].x = Ev.x, ![S].y = Ev.y]
      [] Ev.op = "posd"     -> [o EXCEPT ![S].x = Round(Ev.x, Ev.dx), ![S].y = Round(Ev.y, Ev.dy)]
      [] Ev.op = "lon"      -> [o EXCEPT ![S].x = Round(Ev.x, Ev.dx)]
      [] Ev.op = "lat"      -> [o EXCEPT ![S].y = Round(Ev.y, Ev.dy)]
Error == CASE Ev.op = "badtime" -> "invalid"
           [] Ev.op \in {"text", "attr"} /\ Ev.a = "user" /\ Refused(Ev.n) -> "length"
           [] Ev.op \in {"mem", "setmem"} /\ Refused(Ev.n) -> "length"
           [] OTHER -> "none"
(* what an object shows besides its attributes *)
Extra(v) == IF v.t = "-" THEN <<>> ELSE IF v.t = "m" THEN <<Len(v.mem)>> ELSE
    <<IF v.uid = "-1" THEN 1 ELSE 0,
      IF v.t = "w" THEN (IF v.nodes # <<>> /\ v.nodes[1][1] = v.nodes[Len(v.nodes)][1] THEN 1 ELSE 0) ELSE 2,
      Len(v.tags), Len(v.nodes), Len(v.mem)>>
Init == l = 1 /\ o = <<>>
Begin == l <= Len(Trace) /\ Ev.e = "begin" /\ l' = l + 1 /\ o' = [s \in 1..4 |-> None]
Op == /\ l <= Len(Trace) /\ Ev.e = "op" /\ l' = l + 1
      /\ (Ev.op = "new" \/ Has(S))  \/ Ev.op = "copy"
      /\ o' = Result /\ Ev.err = Error
      /\ Ev.st = o' /\ Ev.ex = [s \in 1..4 |-> Extra(o'[s])]
(* lookups in slot S *)
First(k) == LET I == {i \in DOMAIN o[S].tags : o[S].tags[i][1] = k} IN
    IF I = {} THEN <<>> ELSE <<o[S].tags[CHOOSE i \in I : \A j \in I : i <= j][2]>>
Word(t) == CASE t = "n" -> "node" [] t = "w" -> "way" [] t = "r" -> "relation" [] OTHER -> "unknown"
Ask == /\ l <= Len(Trace) /\ Ev.e = "ask" /\ l' = l + 1 /\ UNCHANGED o /\ Has(S)
       /\ CASE Ev.op = "key"   -> Ev.res = First(Ev.k)
            [] Ev.op = "tageq" -> Ev.res = [i \in DOMAIN o[S].tags |-> o[S].tags[i] = o[S].tags[1]]
            [] Ev.op = "ends"  -> Ev.res = <<o[S].nodes[1][1], o[S].nodes[Len(o[S].nodes)][1], o[S].nodes[Ev.i + 1][1]>>
            [] Ev.op = "back"  -> Ev.res = [i \in DOMAIN o[S].nodes |-> o[S].nodes[Len(o[S].nodes) + 1 - i][1]]
            [] Ev.op = "mem"   -> Ev.res = (IF Ev.i < Len(o[S].mem) THEN LET m == o[S].mem[Ev.i + 1] IN <<m[1], m[2], m[3], Word(m[1])>> ELSE <<>>)
            [] Ev.op = "deg"   -> Ev.res = <<o[S].x, o[S].y>> /\ Ev.def = (o[S].x # Undef /\ o[S].y # Undef)
Next == Begin \/ Op \/ Ask
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
