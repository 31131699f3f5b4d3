------------------------------ MODULE TreeTrace -----------------------------
(* Trace specification for C23: "in" is a callback made on the whole stack, the  *)
(* "cb" events after it are what the leaves received. tree: "L" with h, mut,     *)
(* sees (callbacks it reports, "all" or a list) / "F" / "S" with sub.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, cur, todo, marks, stopped, lvl
vars == <<l, b, cur, todo, marks, stopped, lvl>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Objs == {"n", "w", "r"}
RECURSIVE Leaves(_)
Leaves(t) == IF t.k = "L" THEN <<t>> ELSE IF t.k = "F" THEN Leaves(t.sub[1]) ELSE Leaves(t.sub[1]) \o Leaves(t.sub[2])
Reports(x, c) == x.sees = <<"all">> \/ \E i \in DOMAIN x.sees : x.sees[i] = c
Init == l = 1 /\ b = 0 /\ cur = 0 /\ todo = <<>> /\ marks = <<>> /\ stopped = 0 /\ lvl = 0
Begin == Is("begin") /\ todo = <<>> /\ stopped # 1 /\ b' = l /\ cur' = 0 /\ marks' = <<>> /\ stopped' = 0 /\ lvl' = 0 /\ UNCHANGED todo
In == /\ Is("in") /\ todo = <<>> /\ b > 0
      /\ \/ stopped = 0 /\ stopped' = 0
         \/ stopped = 1 /\ Ev.c = "fin" /\ stopped' = 2
      /\ cur' = l /\ marks' = <<>>
      /\ LET R(x) == Reports(x, Ev.c) IN todo' = SelectSeq(Leaves(Trace[b].tree), R)
      /\ lvl' = (IF Ev.c = "dbg" THEN Ev.o ELSE lvl) /\ UNCHANGED b
Mark(o, m) == [o EXCEPT !.tags = @ \o [i \in DOMAIN m |-> <<"h", m[i]>>]]
Cb == /\ Is("cb") /\ todo # <<>> /\ stopped # 1 /\ Ev.h = todo[1].h /\ Ev.c = Trace[cur].c
      /\ (IF Ev.c \in Objs THEN Ev.o = Mark(Trace[cur].o, marks) /\ Ev.et = Trace[cur].et
          ELSE IF Ev.c \in {"init", "area", "dbg"} THEN Ev.o = Trace[cur].o ELSE TRUE)
      /\ todo' = SubSeq(todo, 2, Len(todo))
      /\ marks' = (IF Ev.c \in Objs /\ todo[1].mut THEN Append(marks, ToString(Ev.h)) ELSE marks)
      /\ UNCHANGED <<b, cur, stopped, lvl>>
(* the leaf called last asked to stop: nobody else gets this callback *)
Stop == /\ Is("stop") /\ (stopped = 0 \/ Trace[cur].c = "fin") /\ Trace[l-1].e = "cb" /\ Ev.h = Trace[l-1].h
        /\ stopped' = (IF Trace[cur].c = "fin" THEN 2 ELSE 1) /\ todo' = <<>> /\ UNCHANGED <<b, cur, marks>>
        /\ lvl' = (IF Trace[cur].c = "dbg" THEN 0 - 1 ELSE lvl)      \* some have got the new level
Level == Is("lvl") /\ todo = <<>> /\ lvl \in {0 - 1, Ev.l} /\ UNCHANGED <<b, cur, todo, marks, stopped, lvl>>
Done == Is("done") /\ todo = <<>> /\ stopped # 1 /\ (cur = 0 \/ Trace[cur].c = "fin") /\ UNCHANGED <<b, cur, todo, marks, stopped, lvl>>
Next == Begin \/ In \/ Cb \/ Stop \/ Level \/ Done
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
