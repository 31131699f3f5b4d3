----------------------------- MODULE StringsTrace ----------------------------
(* Trace specification for C29. (= TRUE keeps TLC from recursing over long rows.)
 "rec": one string recorded and the id it got.      *)
(* "many": strs[i] recorded times[i] times, ids[i] the id it got first, same:     *)
(* it got the same id every time. "store": the table (index 0 first), the final    *)
(* ids of all interim ids asked, in the order of ask, and, for every entry of the  *)
(* table after the first, which of the strings recorded so far it equals.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ids, count, phase, st     \* st: line of the last store
vars == <<l, ids, count, phase, st>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Range(f) == {f[i] : i \in DOMAIN f}
Init == l = 1 /\ ids = <<>> /\ count = <<>> /\ phase = "none" /\ st = 0
Begin == Is("begin") /\ ids' = <<>> /\ count' = <<>> /\ phase' = "rec" /\ UNCHANGED st  \* ids: string -> id
Recorded(s, i, n) ==
       /\ phase = "rec" /\ i > 0
       /\ IF s \in DOMAIN ids THEN i = ids[s] /\ UNCHANGED ids /\ count' = [count EXCEPT ![s] = @ + n]
          ELSE i \notin Range(ids) /\ ids' = ids @@ (s :> i) /\ count' = count @@ (s :> n)
       /\ UNCHANGED <<phase, st>>
Rec == Is("rec") /\ Recorded(Ev.s, Ev.id, 1)
Rep == Is("rep") /\ Ev.same /\ Recorded(Ev.s, Ev.id, Ev.n)     \* one string many times
(* many different strings at once; only at the start of a phase. That their ids differ follows from their final ids *)
Many == /\ Is("many") /\ phase = "rec" /\ ids = <<>> /\ Ev.same
        /\ Len(Ev.ids) = Len(Ev.strs) /\ (\A i \in DOMAIN Ev.ids : Ev.ids[i] > 0) = TRUE
        /\ phase' = "many" /\ UNCHANGED <<ids, count, st>>
Store == /\ Is("store") /\ phase = "rec" /\ phase' = "stored" /\ st' = l
         /\ Ev.table # <<>> /\ Ev.table[1] = "" /\ Len(Ev.table) = 1 + Cardinality(DOMAIN ids)
         /\ {Ev.table[i] : i \in 2..Len(Ev.table)} = DOMAIN ids
         /\ (\A i \in 2..(Len(Ev.table) - 1) : count[Ev.table[i]] >= count[Ev.table[i + 1]]) = TRUE
         /\ UNCHANGED <<ids, count>>
Map == /\ Is("map") /\ phase = "stored" /\ Ev.s \in DOMAIN ids /\ Ev.id = ids[Ev.s]
       /\ LET t == Trace[st].table IN Ev.final > 0 /\ Ev.final < Len(t) /\ t[Ev.final + 1] = Ev.s
       /\ UNCHANGED <<ids, count, phase, st>>
StoreMany == LET m == Trace[l - 1] IN
         /\ Is("storemany") /\ phase = "many" /\ phase' = "stored"
         /\ Len(Ev.table) = 1 + Len(m.strs) /\ Ev.table[1] = "" /\ Len(Ev.which) = Len(m.strs)
         /\ Len(Ev.finals) = Len(m.strs)
         /\ (\A k \in DOMAIN Ev.which : Ev.which[k] \in 1..Len(m.strs) /\ Ev.finals[Ev.which[k]] = k /\ Ev.table[k + 1] = m.strs[Ev.which[k]]) = TRUE
         /\ (\A k \in 1..(Len(Ev.which) - 1) : m.times[Ev.which[k]] >= m.times[Ev.which[k + 1]]) = TRUE
         /\ (\A i \in DOMAIN m.strs : LET k == Ev.finals[i] IN k > 0 /\ k < Len(Ev.table) /\ Ev.table[k + 1] = m.strs[i]) = TRUE
         /\ UNCHANGED <<ids, count, st>>
Clear == Is("clear") /\ ids' = <<>> /\ count' = <<>> /\ phase' = "rec" /\ UNCHANGED st
Next == Begin \/ Rec \/ Rep \/ Many \/ Store \/ Map \/ StoreMany \/ Clear
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
