--------------------------- MODULE ObjStoreTrace ----------------------------
(* Trace specification for C16 and C17: recorded uses of the object store.     *)
(* s[t]: log positions of the stored objects of type t (first of each version).  *)
(* A merge first lists everything the stream delivered ("in"), then everything   *)
(* the next handler received ("cb"). o.k: <<magnitude of id, sign, version>> as   *)
(* a tuple of integers, so that the order is the lexicographic one.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, s,
          mode,      \* "idle", "feed", "in", "out"
          ph,        \* 0 init, 2i-1 before type i, 2i objects of type i, 7 final
          todo,      \* per type: stored objects not handed over yet
          q,         \* next stream event that has not come out yet
          last,      \* log position of the last object of this bracket
          call,      \* position of the feed/apply event
          stopped
vars == <<l, b, s, mode, ph, todo, q, last, call, stopped>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
T == <<"n", "w", "r">>
None == [t \in {"n", "w", "r"} |-> {}]
Idx(c) == CASE c \in {"bn", "n", "an"} -> 1 [] c \in {"bw", "w", "aw"} -> 2 [] c \in {"br", "r", "ar"} -> 3
IsBefore(c) == c \in {"bn", "bw", "br"}
IsObj(c) == c \in {"n", "w", "r"}
IsAfter(c) == c \in {"an", "aw", "ar"}
RECURSIVE Lex(_, _, _)
Lex(x, y, i) == IF i > Len(x) THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE Lex(x, y, i + 1)
Less(x, y) == Lex(x.k, y.k, 1)

Init == l = 1 /\ b = 0 /\ s = None /\ mode = "idle" /\ ph = 0 /\ todo = None /\ q = 0 /\ last = 0 /\ call = 0 /\ stopped = FALSE
Begin == /\ Is("begin") /\ mode = "idle" /\ b' = l /\ s' = None /\ todo' = None /\ ph' = 0 /\ q' = 0 /\ last' = 0 /\ call' = 0 /\ stopped' = FALSE /\ UNCHANGED mode
Put == /\ Is("put") /\ mode = "idle"
       /\ s' = [s EXCEPT ![Ev.o.t] = IF \E i \in @ : Trace[i].o.k = Ev.o.k THEN @ ELSE @ \cup {l}]
       /\ UNCHANGED <<b, mode, ph, todo, q, last, call, stopped>>
Clear == /\ Is("clear") /\ mode = "idle"
         /\ s' = (IF Ev.k = "all" THEN None ELSE [s EXCEPT ![Ev.k] = {}])
         /\ UNCHANGED <<b, mode, ph, todo, q, last, call, stopped>>
Feed == /\ Is("feed") /\ mode = "idle" /\ mode' = "feed" /\ ph' = 0 /\ todo' = s /\ call' = l /\ last' = 0
        /\ UNCHANGED <<b, s, q, stopped>>
(* feeding: the store alone, every bracket present *)
Fcb == /\ Is("cb") /\ mode = "feed"
       /\ LET c == Ev.c IN
          \/ c = "init" /\ ph = 0 /\ Ev.o = Trace[call].o /\ ph' = 1 /\ UNCHANGED <<todo, last, mode, s>>
          \/ IsBefore(c) /\ ph = 2 * Idx(c) - 1 /\ ph' = ph + 1 /\ last' = 0 /\ UNCHANGED <<todo, mode, s>>
          \/ /\ IsObj(c) /\ ph = 2 * Idx(c) /\ Ev.et = "0"
             /\ \E i \in todo[c] : /\ Trace[i].o = Ev.o
                                   /\ \A j \in todo[c] \ {i} : Less(Trace[i].o, Trace[j].o)
                                   /\ todo' = [todo EXCEPT ![c] = @ \ {i}]
             /\ UNCHANGED <<ph, last, mode, s>>
          \/ IsAfter(c) /\ ph = 2 * Idx(c) /\ todo[T[Idx(c)]] = {} /\ ph' = ph + 1 /\ UNCHANGED <<todo, last, mode, s>>
          \/ /\ c = "fin" /\ ph = 7 /\ mode' = "idle" /\ ph' = 0
             /\ s' = (IF Trace[call].clear THEN None ELSE s) /\ UNCHANGED <<todo, last>>
       /\ UNCHANGED <<b, q, call, stopped>>

(* merging *)
Apply == /\ Is("apply") /\ mode = "idle" /\ mode' = "in" /\ ph' = 0 /\ todo' = s /\ call' = l /\ q' = l + 1 /\ last' = 0 /\ stopped' = FALSE
         /\ UNCHANGED <<b, s>>
In == Is("in") /\ mode = "in" /\ UNCHANGED <<b, s, mode, ph, todo, q, last, call, stopped>>
Nxt == Trace[q]                                   \* the stream's next callback
HasNxt == q < l /\ Nxt.e = "in"
NxtIs(c) == HasNxt /\ Nxt.c = c
Expected(t) == todo[t] # {}
(* which type's bracket may be opened now: later than all closed ones, nothing pending for earlier types *)
Mcb == /\ Is("cb") /\ mode \in {"in", "out"} /\ ~stopped /\ mode' = "out"
       /\ LET c == Ev.c IN
          \/ c = "init" /\ ph = 0 /\ NxtIs("init") /\ q' = q + 1 /\ Ev.o = Trace[call].o /\ ph' = 1 /\ UNCHANGED <<todo, last>>
          \/ /\ IsBefore(c) /\ ph % 2 = 1 /\ ph <= 2 * Idx(c) - 1
             /\ \A i \in 1..(Idx(c) - 1) : todo[T[i]] = {}
             /\ IF NxtIs(c) THEN q' = q + 1 ELSE Expected(T[Idx(c)]) /\ q' = q
             /\ ph' = 2 * Idx(c) /\ last' = 0 /\ UNCHANGED todo
          \/ /\ IsObj(c) /\ ph = 2 * Idx(c)
             /\ (last # 0 => ~Less(Ev.o, Trace[last].o))
             /\ last' = l /\ UNCHANGED ph
             /\ \/ NxtIs(c) /\ Nxt.o = Ev.o /\ Nxt.et = Ev.et /\ q' = q + 1 /\ UNCHANGED todo
                \/ Ev.et = "0" /\ q' = q /\ \E i \in todo[c] : Trace[i].o = Ev.o /\ todo' = [todo EXCEPT ![c] = @ \ {i}]
          \/ /\ IsAfter(c) /\ ph = 2 * Idx(c) /\ todo[T[Idx(c)]] = {}
             /\ IF NxtIs(c) THEN q' = q + 1 ELSE q' = q /\ ~NxtIs(T[Idx(c)])
             /\ ph' = ph + 1 /\ UNCHANGED <<todo, last>>
          \/ /\ c = "fin" /\ ph % 2 = 1 /\ ph > 0 /\ NxtIs("fin") /\ \A i \in 1..3 : todo[T[i]] = {}
             /\ q' = q + 1 /\ ph' = 8 /\ UNCHANGED <<todo, last>>
       /\ UNCHANGED <<b, s, call, stopped>>
Stop == Is("stop") /\ mode = "out" /\ ~stopped /\ stopped' = TRUE /\ UNCHANGED <<b, s, mode, ph, todo, q, last, call>>
(* after a stop signal the next handler only ever sees one final *)
StopFin == Is("cb") /\ mode = "out" /\ stopped /\ ph < 8 /\ Ev.c = "fin" /\ ph' = 8 /\ UNCHANGED <<b, s, mode, todo, q, last, call, stopped>>
Applied == /\ Is("applied") /\ mode \in {"in", "out"} /\ ph = 8 /\ (stopped \/ ~HasNxt)
           /\ mode' = "idle" /\ ph' = 0 /\ todo' = None /\ s' = None /\ UNCHANGED <<b, q, last, call, stopped>>
Next == Begin \/ Put \/ Clear \/ Feed \/ Fcb \/ Apply \/ In \/ Mcb \/ Stop \/ StopFin \/ Applied
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
