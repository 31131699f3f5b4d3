----------------------------- MODULE DebugTrace -----------------------------
(* Trace specification for C33: what the debug handler writes for each callback. *)
(* "in": a callback with its argument, "txt": the text written meanwhile, percent *)
(* coded; the numbers of the bounds stand in field b. Times are <<day, second>>,  *)
(* <<>> if there is none.                                                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CalendarOps
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, multi, ph, at
vars == <<l, multi, ph, at>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
U == 2147483647
NL == "%0A"
Ind == "%20%20"
Ind2 == Ind \o Ind
T(n) == ToString(n)
Two(n) == IF n < 10 THEN "0" \o T(n) ELSE T(n)
Four(n) == IF n < 10 THEN "000" \o T(n) ELSE IF n < 100 THEN "00" \o T(n) ELSE IF n < 1000 THEN "0" \o T(n) ELSE T(n)
RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN "" ELSE "0" \o Zeros(k - 1)
Places(n) == CASE n < 10 -> 1 [] n < 100 -> 2 [] n < 1000 -> 3 [] n < 10000 -> 4 [] n < 100000 -> 5 [] n < 1000000 -> 6 [] OTHER -> 7
Deg(n) == LET a == IF n < 0 THEN -n ELSE n f == a % 10000000
          IN (IF n < 0 THEN "-" ELSE "") \o T(a \div 10000000) \o "." \o Zeros(7 - Places(f)) \o T(f)
Iso(t) == IF t = <<>> THEN ""
          ELSE LET c == Civil(t[1]) s == t[2] IN
               Four(c[1]) \o "-" \o Two(c[2]) \o "-" \o Two(c[3]) \o "T" \o Two(s \div 3600) \o ":" \o Two((s \div 60) % 60) \o ":" \o Two(s % 60) \o "Z"
RECURSIVE Cat(_, _)
Cat(F(_), n) == IF n = 0 THEN "" ELSE Cat(F, n - 1) \o F(n)
Tag(o, i) == Ind2 \o "k=|" \o o.tags[i][1] \o "|%20v=|" \o o.tags[i][2] \o "|" \o NL
Meta(o, ts, et) ==
    Ind \o "id=" \o o.id \o NL \o Ind \o "version=" \o o.v \o NL \o Ind \o "uid=" \o T(o.uid) \o NL \o Ind \o "user=|" \o o.user \o "|" \o NL
    \o Ind \o "changeset=" \o o.cs \o NL \o Ind \o "timestamp=" \o Iso(ts)
    \o (IF multi THEN NL \o Ind \o "visible=" \o (IF o.vis THEN "yes" ELSE "no") \o NL \o Ind \o "endtime=" \o Iso(et) ELSE "")
    \o NL \o Ind \o "tags:%20(count=" \o T(Len(o.tags)) \o ")" \o NL
    \o Cat(LAMBDA i : Tag(o, i), Len(o.tags))
Name == [bn |-> "before_nodes", an |-> "after_nodes", bw |-> "before_ways", aw |-> "after_ways", br |-> "before_relations", ar |-> "after_relations", fin |-> "final"]
Text(c, e) ==        \* e: the callback, Ev: the text's event
    CASE c = "n" -> "node:" \o NL \o Meta(e.o, Ev.ts, Ev.et) \o Ind \o "lon=" \o Deg(e.o.x) \o NL \o Ind \o "lat=" \o Deg(e.o.y) \o NL
      [] c = "w" -> "way:" \o NL \o Meta(e.o, Ev.ts, Ev.et) \o Ind \o "node_count=" \o T(Len(e.o.nodes)) \o NL \o Ind \o "nodes:" \o NL
                    \o Cat(LAMBDA i : Ind2 \o "ref=" \o e.o.nodes[i] \o NL, Len(e.o.nodes))
      [] c = "r" -> "relation:" \o NL \o Meta(e.o, Ev.ts, Ev.et) \o Ind \o "members:%20(count=" \o T(Len(e.o.mem)) \o ")" \o NL
                    \o Cat(LAMBDA i : Ind2 \o "type=" \o e.o.mem[i][1] \o "%20ref=" \o e.o.mem[i][2] \o "%20role=|" \o e.o.mem[i][3] \o "|" \o NL, Len(e.o.mem))
      [] OTHER -> Name[c] \o NL
(* six significant digits of a number of degrees *)
Abs(n) == IF n < 0 THEN -n ELSE n
Tol(n) == CASE Abs(n) >= 1000000000 -> 5001 [] Abs(n) >= 100000000 -> 501 [] Abs(n) >= 10000000 -> 51 [] Abs(n) >= 1000000 -> 6 [] OTHER -> 1
Near(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= Tol(b[k])

Init == l = 1 /\ multi = FALSE /\ ph = "idle" /\ at = 0
Begin == Is("begin") /\ ph = "idle" /\ multi' = Ev.multi /\ ph' = "run" /\ at' = 0
In == /\ Is("in") /\ ph = "run" /\ at = 0 /\ at' = l
      /\ multi' = (multi \/ (IF Ev.c = "init" THEN Ev.o.multi ELSE FALSE)) /\ UNCHANGED ph
InitText == /\ Is("txt") /\ at > 0 /\ Ev.c = "init" /\ Trace[at].c = "init"
            /\ LET m == Trace[at].o IN
               /\ Ev.s = "meta:" \o NL \o Ind \o "generator=" \o m.gen \o NL \o (IF m.bounds = <<>> THEN "" ELSE Ind \o "bounds=()" \o NL)
               /\ Near(Ev.b, m.bounds)
            /\ at' = 0 /\ UNCHANGED <<multi, ph>>
Txt == /\ Is("txt") /\ at > 0 /\ Ev.c # "init" /\ Trace[at].c = Ev.c
       /\ Ev.s = Text(Ev.c, Trace[at])
       /\ at' = 0 /\ UNCHANGED <<multi, ph>>
Rest == Is("rest") /\ ph = "run" /\ at = 0 /\ Ev.s = "" /\ ph' = "idle" /\ UNCHANGED <<multi, at>>
Next == Begin \/ In \/ InitText \/ Txt \/ Rest
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
