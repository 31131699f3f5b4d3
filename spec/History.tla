------------------------------- MODULE History ------------------------------
(* C20/C21: the end-time handler (one object look-ahead per type) in front of   *)
(* the range filter, against what they are to deliver, stated over the whole    *)
(* stream. A stream is what a reader delivers: each type's objects in a bracket. *)
(* Callbacks: [c, id, ts, et]; c is "bn","n","an",... Only two types: n and w.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Fault, MaxObj, Ids, Times, From, To
VARIABLES ins, hold, out, ph, stopped, cut
vars == <<ins, hold, out, ph, stopped, cut>>
Obj == {"n", "w"}
Cb(c) == [c |-> c, id |-> 0, ts |-> 0, et |-> 0]
NoHold == [n |-> <<>>, w |-> <<>>]

(* ---- what is to come out *)
EndTimes(s) == [i \in DOMAIN s |->
    IF s[i].c \in Obj /\ i < Len(s) /\ s[i+1].c = s[i].c /\ s[i+1].id = s[i].id THEN [s[i] EXCEPT !.et = s[i+1].ts] ELSE s[i]]
Alive(x, from, to) == (x.et = 0 \/ x.et >= from) /\ x.ts <= to
Pass(x) == x.c \notin Obj \/ Alive(x, From, To)
Range(s) == SelectSeq(s, Pass)
Wanted == Range(EndTimes(ins))

(* ---- the machines *)
Deliver(o, x) ==        \* the range filter in front of the final receiver
    IF x.c \notin Obj THEN Append(o, x)
    ELSE IF "tostrict" \in Fault THEN (IF (x.et = 0 \/ x.et >= From) /\ x.ts < To THEN Append(o, x) ELSE o)
    ELSE IF "fromstrict" \in Fault THEN (IF (x.et = 0 \/ x.et > From) /\ x.ts <= To THEN Append(o, x) ELSE o)
    ELSE IF "etzero" \in Fault THEN (IF x.et >= From /\ x.ts <= To THEN Append(o, x) ELSE o)
    ELSE IF Alive(x, From, To) THEN Append(o, x) ELSE o
Flush(o, h) == IF h = <<>> THEN o ELSE Deliver(o, h[1])
Init == ins = <<>> /\ hold = NoHold /\ out = <<>> /\ ph = 0 /\ stopped = FALSE /\ cut \in BOOLEAN
T(i) == IF i = 1 THEN "n" ELSE "w"
InitCb == ph = 0 /\ ph' = 1 /\ ins' = Append(ins, Cb("init")) /\ out' = Append(out, Cb("init")) /\ UNCHANGED <<hold, stopped, cut>>
Before(i) == /\ ph % 2 = 1 /\ 2 * i - 1 >= ph /\ ph < 5 /\ ph' = 2 * i
             /\ ins' = Append(ins, Cb("b" \o T(i))) /\ out' = Append(out, Cb("b" \o T(i))) /\ UNCHANGED <<hold, stopped, cut>>
Object(i) == /\ ph = 2 * i /\ Cardinality({k \in DOMAIN ins : ins[k].c \in Obj}) < MaxObj
             /\ \E id \in Ids, ts \in Times :
                LET x == [c |-> T(i), id |-> id, ts |-> ts, et |-> 0]
                    h == hold[T(i)]
                    h1 == IF h = <<>> THEN h
                          ELSE IF "anyid" \in Fault \/ h[1].id = id THEN <<[h[1] EXCEPT !.et = IF "ownts" \in Fault THEN h[1].ts ELSE ts]>> ELSE h
                IN /\ ins' = Append(ins, x) /\ out' = Flush(out, h1) /\ hold' = [hold EXCEPT ![T(i)] = <<x>>]
             /\ UNCHANGED <<ph, stopped, cut>>
After(i) == /\ ph = 2 * i /\ ph' = ph + 1 /\ ins' = Append(ins, Cb("a" \o T(i)))
            /\ IF "nolast" \in Fault THEN out' = Append(out, Cb("a" \o T(i))) /\ UNCHANGED hold
               ELSE IF "lateflush" \in Fault THEN out' = Flush(Append(out, Cb("a" \o T(i))), hold[T(i)]) /\ hold' = [hold EXCEPT ![T(i)] = <<>>]
               ELSE out' = Append(Flush(out, hold[T(i)]), Cb("a" \o T(i))) /\ hold' = [hold EXCEPT ![T(i)] = <<>>]
            /\ UNCHANGED <<stopped, cut>>
Final == /\ ph % 2 = 1 /\ ph > 0 /\ ~stopped /\ stopped' = TRUE /\ ins' = Append(ins, Cb("final")) /\ out' = Append(out, Cb("final")) /\ UNCHANGED <<hold, ph, cut>>
(* the receiver asked to stop, then the same handler is used for another read *)
Reread == /\ cut /\ ph > 0 /\ ~stopped /\ cut' = FALSE /\ ph' = 0 /\ ins' = <<>> /\ out' = <<>>
          /\ hold' = (IF "keep" \in Fault THEN hold ELSE NoHold) /\ UNCHANGED stopped
Next == ~stopped /\ (InitCb \/ Final \/ Reread \/ \E i \in 1..2 : Before(i) \/ Object(i) \/ After(i))
Spec == Init /\ [][Next]_vars
(* ---- what must hold *)
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
NothingWrong == Prefix(out, Wanted)                   \* at any moment: nothing wrong, nothing out of place
AllDelivered == stopped => out = Wanted               \* and in the end everything
(* The point of it all: of a sorted history in which nothing changes at the     *)
(* moment in question, at most one version per object is alive, the last one before. *)
Sorted == \A i, j \in DOMAIN ins : i < j /\ ins[i].c \in Obj /\ ins[i].c = ins[j].c =>
              ins[i].id < ins[j].id \/ (ins[i].id = ins[j].id /\ ins[i].ts < ins[j].ts)
Snapshot == (stopped /\ From = To /\ Sorted /\ \A i \in DOMAIN ins : ins[i].c \in Obj => ins[i].ts # From /\ ins[i].ts > 0) =>
    \A t \in Obj, id \in Ids :
       LET before == {i \in DOMAIN ins : ins[i].c = t /\ ins[i].id = id /\ ins[i].ts < From}
           got == {i \in DOMAIN out : out[i].c = t /\ out[i].id = id}
       IN IF before = {} THEN got = {}
          ELSE \E i \in before : (\A j \in before : ins[j].ts <= ins[i].ts) /\ \E k \in got : got = {k} /\ out[k].ts = ins[i].ts
=============================================================================
