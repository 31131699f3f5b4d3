----------------------------- MODULE BoundsTrace ----------------------------
(* Trace specification for C22. "ext": a position was given to a box, with the   *)
(* box afterwards. "in": a callback of the bounding-box handler, "box": the      *)
(* result of its read.                                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, xs, ys, ph
vars == <<l, xs, ys, ph>>
Ev == Trace[l]
U == 2147483647
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x
Box(X, Y) == IF X = {} THEN <<>> ELSE <<Least(X), Least(Y), Greatest(X), Greatest(Y)>>
Ext(S, p, k) == IF p[1] # U /\ p[2] # U THEN S \cup {p[k]} ELSE S
Init == l = 1 /\ xs = {} /\ ys = {} /\ ph = "idle"
Begin == Is("begin") /\ ph = "idle" /\ xs' = {} /\ ys' = {} /\ UNCHANGED ph
Extend == /\ Is("ext") /\ ph = "idle"
          /\ xs' = Ext(xs, Ev.p, 1) /\ ys' = Ext(ys, Ev.p, 2)
          /\ Ev.box = Box(xs', ys') /\ UNCHANGED ph
Read == Is("read") /\ ph = "idle" /\ ph' = "start" /\ xs' = {} /\ ys' = {}
(* the first run of nodes, whatever came before it, then nothing but final *)
In == /\ Is("in")
      /\ \/ ph = "start" /\ Ev.c \in {"init", "bw", "w", "aw", "br", "r", "ar"} /\ UNCHANGED <<ph, xs, ys>>
         \/ ph = "start" /\ Ev.c = "bn" /\ ph' = "nodes" /\ UNCHANGED <<xs, ys>>
         \/ ph = "nodes" /\ Ev.c = "n" /\ xs' = Ext(xs, <<Ev.o.x, Ev.o.y>>, 1) /\ ys' = Ext(ys, <<Ev.o.x, Ev.o.y>>, 2) /\ UNCHANGED ph
         \/ ph = "nodes" /\ Ev.c = "an" /\ ph' = "after" /\ UNCHANGED <<xs, ys>>
         \/ ph \in {"start", "after"} /\ Ev.c = "fin" /\ ph' = "final" /\ UNCHANGED <<xs, ys>>
Result == Is("box") /\ ph = "final" /\ ph' = "idle" /\ Ev.box = Box(xs, ys) /\ UNCHANGED <<xs, ys>>
Next == Begin \/ Extend \/ Read \/ In \/ Result
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
