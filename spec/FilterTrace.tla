----------------------------- MODULE FilterTrace ----------------------------
(* Trace specification for C24. Every event is one filter with its rules and a   *)
(* tag list; texts are sequences of byte values, regular expressions are trees.   *)
(* res: the filter's answer for each tag; iter: the tags (positions) visited      *)
(* through the iterator; acc: what accumulation folded, position by position.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Ev == Trace[l]
(* ---- the ends of all matches of expression r in s that start at i *)
RECURSIVE Ends(_, _, _), Closure(_, _, _, _)
Closure(r, s, new, all) ==
    IF new = {} THEN all
    ELSE LET more == UNION {Ends(r, s, i) : i \in new} \ all IN Closure(r, s, more, all \cup more)
Ends(r, s, i) ==
    CASE r.k = "lit"  -> IF i <= Len(s) /\ s[i] = r.c THEN {i + 1} ELSE {}
      [] r.k = "any"  -> IF i <= Len(s) THEN {i + 1} ELSE {}
      [] r.k = "set"  -> IF i <= Len(s) /\ \E x \in DOMAIN r.cs : r.cs[x] = s[i] THEN {i + 1} ELSE {}
      [] r.k = "nset" -> IF i <= Len(s) /\ \A x \in DOMAIN r.cs : r.cs[x] # s[i] THEN {i + 1} ELSE {}
      [] r.k = "cat"  -> UNION {Ends(r.b, s, j) : j \in Ends(r.a, s, i)}
      [] r.k = "alt"  -> Ends(r.a, s, i) \cup Ends(r.b, s, i)
      [] r.k = "opt"  -> {i} \cup Ends(r.a, s, i)
      [] r.k = "star" -> Closure(r.a, s, {i}, {i})
      [] r.k = "plus" -> LET e == Ends(r.a, s, i) IN Closure(r.a, s, e, e)
      [] r.k = "eps"  -> {i}
Whole(r, s) == Len(s) + 1 \in Ends(r, s, 1)
(* ---- rules *)
Hit(kind, r, t) ==
    CASE kind = "key"   -> r.key = t.k
      [] kind = "kv"    -> r.key = t.k /\ (r.val = <<>> \/ r.val = t.v)       \* no (or an empty) value: any value
      [] kind = "regex" -> Whole(r.key, t.k) /\ (~r.hasval \/ Whole(r.val, t.v))
Matching(t) == {i \in DOMAIN Ev.rules : Hit(Ev.kind, Ev.rules[i], t)}
Accepts(t) == LET M == Matching(t) IN
    IF M = {} THEN Ev.default ELSE Ev.rules[CHOOSE i \in M : \A j \in M : i <= j].res
Accepted1 == LET A == {i \in DOMAIN Ev.tags : Accepts(Ev.tags[i])} IN
    /\ Ev.res = [i \in DOMAIN Ev.tags |-> i \in A]
    /\ {Ev.iter[k] : k \in DOMAIN Ev.iter} = A
    /\ \A k \in 1..(Len(Ev.iter) - 1) : Ev.iter[k] < Ev.iter[k + 1]
    /\ Len(Ev.iter) = Cardinality(A)
    /\ Ev.acc = Ev.iter
Init == l = 1
Filter == l <= Len(Trace) /\ Ev.e = "filter" /\ Accepted1 /\ l' = l + 1
Next == Filter
Spec == Init /\ [][Next]_l
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
