----------------------------- MODULE HistoryTrace ---------------------------
(* Trace specification for C20 and C21. A scenario first lists what the source  *)
(* delivered to the handlers under test ("in"), then what came out ("cb").      *)
(* ends: an end-time handler is in the stack; from/to: bounds of the range       *)
(* handler (<<>> without one). Times as tuples of numbers (Big).               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
LOCAL INSTANCE Big
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, q, mode, stopped, fin
vars == <<l, b, q, mode, stopped, fin>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Objs == {"n", "w", "r"}
IsObj(e) == e.c \in Objs
Init == l = 1 /\ b = 0 /\ q = 0 /\ mode = "idle" /\ stopped = FALSE /\ fin = FALSE
Begin == Is("begin") /\ mode = "idle" /\ b' = l /\ q' = l + 1 /\ mode' = "in" /\ stopped' = FALSE /\ fin' = FALSE
In == Is("in") /\ mode = "in" /\ UNCHANGED <<b, q, mode, stopped, fin>>
(* end time of the object delivered by event i *)
NextSame(i) == /\ i < Len(Trace) /\ Trace[i+1].e = "in" /\ Trace[i+1].c = Trace[i].c
               /\ Trace[i+1].o.id = Trace[i].o.id
Et(i) == IF Trace[b].ends /\ NextSame(i) THEN [s |-> Trace[i+1].o.ts, n |-> Trace[i+1].tsn] ELSE [s |-> Trace[i].et, n |-> Trace[i].etn]
Passes(i) == \/ Trace[i].c \notin Objs
             \/ Trace[b].from = <<>>
             \/ /\ (Et(i).s = "0" \/ LessEq(Trace[b].from, Et(i).n))
                /\ LessEq(Trace[i].tsn, Trace[b].to)
RECURSIVE Skip(_)
Skip(i) == IF i <= Len(Trace) /\ Trace[i].e = "in" /\ ~Passes(i) THEN Skip(i + 1) ELSE i
Out == /\ Is("cb") /\ mode \in {"in", "out"} /\ ~stopped /\ mode' = "out" /\ ~fin
       /\ LET i == Skip(q) IN
          /\ Trace[i].e = "in" /\ Trace[i].c = Ev.c
          /\ (IF Ev.c \in Objs THEN Ev.o = Trace[i].o /\ Ev.et = Et(i).s ELSE IF Ev.c = "init" THEN Ev.o = Trace[i].o ELSE TRUE)
          /\ q' = i + 1
       /\ fin' = (Ev.c = "fin") /\ UNCHANGED <<b, stopped>>
Stop == Is("stop") /\ mode = "out" /\ ~stopped /\ stopped' = TRUE /\ UNCHANGED <<b, q, mode, fin>>
StopFin == Is("cb") /\ stopped /\ ~fin /\ Ev.c = "fin" /\ fin' = TRUE /\ UNCHANGED <<b, q, mode, stopped>>
(* a read is over: everything came out (or the receiver stopped it) *)
Done == /\ Is("done") /\ mode = "out" /\ fin
        /\ (stopped \/ (Skip(q) <= Len(Trace) /\ Trace[Skip(q)].e # "in"))
        /\ mode' = "idle" /\ UNCHANGED <<b, q, stopped, fin>>
Next == Begin \/ In \/ Out \/ Stop \/ StopFin \/ Done
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
