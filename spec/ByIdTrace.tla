------------------------------ MODULE ByIdTrace -----------------------------
(* Trace specification for C14.  The abstract map of a store is the log of its *)
(* set events; a lookup returns the last one that covers the id.  Two stores    *)
(* may live at the same time.  n is the id as a number if it is small, id the   *)
(* id as text.                                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b,      \* begin event
          st,        \* per slot: "none", "open", "cleared"
          from       \* per slot: first event of the log
vars == <<l, b, st, from>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
S == {1, 2}
Init == l = 1 /\ b = 0 /\ st = [s \in S |-> "none"] /\ from = [s \in S |-> 0]
Begin == Is("begin") /\ b' = l /\ st' = [s \in S |-> "none"] /\ from' = [s \in S |-> 0]
New == /\ Is("new") /\ st[Ev.s] = "none" /\ st' = [st EXCEPT ![Ev.s] = "open"]
       /\ from' = (IF Ev.again THEN from ELSE [from EXCEPT ![Ev.s] = l]) /\ UNCHANGED b
(* a mapping the system refuses is reported, and the store stays as it was *)
Set == Is("set") /\ st[Ev.s] = "open" /\ Ev.thrown = Ev.refused /\ UNCHANGED <<b, st, from>>
FailNew == Is("failnew") /\ Ev.thrown = Ev.refused /\ (Ev.kind \in {"anon", "file"} => Ev.refused) /\ UNCHANGED <<b, st, from>>
Toobig == Is("toobig") /\ st[Ev.s] = "open" /\ Ev.thrown /\ UNCHANGED <<b, st, from>>   \* an id no such store can hold is refused
Fill == Is("fill") /\ st[Ev.s] = "open" /\ UNCHANGED <<b, st, from>>
Covers(w, s, id, n) == /\ (w.e = "set" /\ ~w.thrown) \/ w.e = "fill"
                       /\ w.s = s
                       /\ IF w.e = "set" THEN w.id = id
                          ELSE n >= w.first /\ n < w.first + w.step * w.count /\ (n - w.first) % w.step = 0
RECURSIVE Last(_, _, _, _)
Last(k, s, id, n) == IF k <= from[s] THEN 0 ELSE IF Covers(Trace[k], s, id, n) THEN k ELSE Last(k - 1, s, id, n)
Value(w, n) == IF w.e = "set" THEN w.v ELSE w.base + (n - w.first) \div w.step
Get == /\ Is("get") /\ st[Ev.s] = "open"
       /\ LET k == Last(l - 1, Ev.s, Ev.id, Ev.n) IN
          IF k > 0 THEN Ev.v = Value(Trace[k], Ev.n)
          ELSE \/ Ev.kind \in {"sparse", "vec", "anon", "file"} /\ Ev.v = -1      \* the default value
               \/ Ev.kind \in {"anon", "file"} /\ Ev.n >= 0      \* within a mapping: whatever is there
       /\ UNCHANGED <<b, st, from>>
(* every id of the log, read back in one sweep *)
Sweep == Is("sweep") /\ st[Ev.s] = "open" /\ Ev.wrong = 0 /\ UNCHANGED <<b, st, from>>
Clear == /\ Is("clear") /\ st[Ev.s] \in {"open", "cleared"} /\ Ev.freed /\ Ev.foreign = 0
         /\ st' = [st EXCEPT ![Ev.s] = "cleared"] /\ UNCHANGED <<b, from>>
(* destroying leaves no memory, mapping, descriptor or file that is not to be kept *)
Destroy == /\ Is("destroy") /\ st[Ev.s] # "none" /\ Ev.freed /\ Ev.foreign = 0 /\ Ev.fds = 0
           /\ Ev.exists = Ev.kept
           /\ st' = [st EXCEPT ![Ev.s] = "none"] /\ UNCHANGED <<b, from>>
Next == Begin \/ New \/ Set \/ FailNew \/ Toobig \/ Fill \/ Get \/ Sweep \/ Clear \/ Destroy
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
