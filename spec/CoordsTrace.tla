---------------------------- MODULE CoordsTrace -----------------------------
(* Trace specification for C15: the position of a reference is that of the     *)
(* last node event with exactly that id; without one it is the default of the  *)
(* store of that sign.                                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b
vars == <<l, b>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Undef == 2147483647
Init == l = 1 /\ b = 0
Begin == Is("begin") /\ b' = l
Node == Is("node") /\ b > 0 /\ Ev.after = Ev.o /\ UNCHANGED b
RECURSIVE Last(_, _)
Last(k, id) == IF k <= b THEN 0 ELSE IF Trace[k].e = "node" /\ Trace[k].o.id = id THEN k ELSE Last(k - 1, id)
PosOf(id) == LET k == Last(l - 1, id) IN IF k > 0 THEN <<Trace[k].o.x, Trace[k].o.y>> ELSE <<Undef, Undef>>
Way == /\ Is("way") /\ b > 0
       /\ Ev.after = Ev.o                 \* references, order and all other attributes are as before
       /\ Ev.pos = [k \in 1..Len(Ev.o.nodes) |-> PosOf(Ev.o.nodes[k])]
       /\ UNCHANGED b
Get == Is("get") /\ b > 0 /\ Ev.pos = PosOf(Ev.id) /\ UNCHANGED b
Rel == Is("rel") /\ b > 0 /\ Ev.after = Ev.o /\ UNCHANGED b
Next == Begin \/ Node \/ Way \/ Get \/ Rel
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
