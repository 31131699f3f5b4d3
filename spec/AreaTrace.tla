----------------------------- MODULE AreaTrace -----------------------------
(* Trace specification for C30. A scenario gives the relations, all ways with their *)
(* nodes, and for each relation a division of its member ways into rings, which is  *)
(* verified here (every ring a closed line without a node twice, no two lines       *)
(* crossing). Which areas are due, with which rings and tags, follows from it.      *)
(* A ring is the set of its edges, an edge the set of its two points. Ids are       *)
(* <<sign, millions, rest>>.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, seen, due
vars == <<l, b, seen, due>>
Ev == Trace[l]
S == Trace[b]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Range(s) == {s[i] : i \in 1..Len(s)}
Base == 1000000000
Twice(n, d) == <<n[1], 2 * n[2] + (2 * n[3] + d) \div Base, (2 * n[3] + d) % Base>>
(* ---- edges and rings *)
XorE(x, y) == (x \ y) \cup (y \ x)
EdgesOf(p) == {{p[i], p[i + 1]} : i \in {k \in 1..(Len(p) - 1) : p[k] # p[k + 1]}}
Pts(w) == LET n == S.ways[w].nodes IN [i \in 1..Len(n) |-> <<n[i][2], n[i][3]>>]
RECURSIVE XorAll(_, _)
XorAll(ws, k) == IF k = 0 THEN {} ELSE XorE(XorAll(ws, k - 1), EdgesOf(Pts(ws[k])))
Vertices(E) == UNION E
Deg(E, v) == Cardinality({e \in E : v \in e})
OddV(E) == {v \in Vertices(E) : Deg(E, v) % 2 = 1}
RECURSIVE Reach(_, _)
Reach(E, X) == LET Y == X \cup UNION {e \in E : e \cap X # {}} IN IF Y = X THEN X ELSE Reach(E, Y)
Cycle(E) == /\ E # {} /\ \A v \in Vertices(E) : Deg(E, v) = 2
            /\ LET v == CHOOSE x \in Vertices(E) : TRUE IN Reach(E, {v}) = Vertices(E)
Orient(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
EndA(e) == CHOOSE p \in e : TRUE
EndB(e) == CHOOSE p \in e : p # EndA(e)
Meet(e, f) == LET p == EndA(e) q == EndB(e) r == EndA(f) s == EndB(f) IN   \* strictly
              /\ Sgn(Orient(p, q, r)) * Sgn(Orient(p, q, s)) < 0
              /\ Sgn(Orient(r, s, p)) * Sgn(Orient(r, s, q)) < 0
OnEdge(v, e) == LET p == EndA(e) q == EndB(e) IN
                /\ v \notin e /\ Orient(p, q, v) = 0
                /\ (v[1] - p[1]) * (v[1] - q[1]) <= 0 /\ (v[2] - p[2]) * (v[2] - q[2]) <= 0
Crossing(E) == \E e, f \in E : e \cap f = {} /\ Meet(e, f)
Resting(E) == \E v \in Vertices(E), e \in E : OnEdge(v, e)
(* a point is inside when a ray to the right crosses the ring an odd number of times *)
Over(v, e) == LET p == EndA(e) q == EndB(e) lo == IF p[2] < q[2] THEN p ELSE q hi == IF p[2] < q[2] THEN q ELSE p IN
              lo[2] <= v[2] /\ v[2] < hi[2] /\ Orient(lo, hi, v) > 0
Inside(v, E) == Cardinality({e \in E : Over(v, e)}) % 2 = 1
RECURSIVE Turn(_, _)
Turn(p, k) == IF k = 0 THEN 0 ELSE Turn(p, k - 1) + (p[k][1] - p[1][1]) * (p[k + 1][2] - p[1][2]) - (p[k + 1][1] - p[1][1]) * (p[k][2] - p[1][2])
Clockwise(p) == Turn(p, Len(p) - 1) < 0
Counter(p) == Turn(p, Len(p) - 1) > 0
Closed(p) == Len(p) >= 4 /\ p[1] = p[Len(p)] /\ Cardinality(EdgesOf(p)) = Len(p) - 1 /\ Cycle(EdgesOf(p))
(* ---- a relation *)
IsMP(r) == r.type \in {"multipolygon", "boundary"}
MemberWays(r) == {r.mem[i] : i \in 1..Len(r.mem)}              \* members of type way only
Full(r) == {w \in MemberWays(r) : S.ways[w].nodes # <<>>}
Complete(r, have) == MemberWays(r) \subseteq have
Rings(r) == LET raw == [k \in 1..Len(r.rings) |-> XorAll(r.rings[k], Len(r.rings[k]))] IN
            IF S.repair THEN [k \in 1..Len(raw) |-> IF Cardinality(OddV(raw[k])) = 2 THEN XorE(raw[k], {OddV(raw[k])}) ELSE raw[k]] ELSE raw
Gap(r, k) == OddV(XorAll(r.rings[k], Len(r.rings[k]))) # {}
Divided(r) == /\ UNION {Range(r.rings[k]) : k \in 1..Len(r.rings)} = Full(r)
              /\ \A k, m \in 1..Len(r.rings) : k # m => Range(r.rings[k]) \cap Range(r.rings[m]) = {}
              /\ \A k \in 1..Len(r.rings) : Cardinality(Range(r.rings[k])) = Len(r.rings[k])
Double(r) == Cardinality({i \in 1..Len(r.mem) : S.ways[r.mem[i]].nodes # <<>>}) # Cardinality(Full(r))
Holds(R, k, m) == k # m /\ \E v \in Vertices(R[m]) \ Vertices(R[k]) : Inside(v, R[k])
Depth(R, m) == Cardinality({k \in 1..Len(R) : Holds(R, k, m)})
Of(R, m) == {k \in 1..Len(R) : Holds(R, k, m) /\ Depth(R, k) = Depth(R, m) - 1}
Shared(R, k, m) == Vertices(R[k]) \cap Vertices(R[m])
Pairs(R) == {<<k, m>> \in (1..Len(R)) \X (1..Len(R)) : k < m /\ Shared(R, k, m) # {}}
Siblings(R, k, m) == Depth(R, k) % 2 = 1 /\ Depth(R, m) = Depth(R, k) /\ Of(R, k) = Of(R, m)
Gentle(R) == Pairs(R) = {} \/ \E p \in (1..Len(R)) \X (1..Len(R)) : Pairs(R) = {p} /\
             (Cardinality(Shared(R, p[1], p[2])) = 1 \/
              (Shared(R, p[1], p[2]) \in R[p[1]] /\ Shared(R, p[1], p[2]) \in R[p[2]] /\ Siblings(R, p[1], p[2])))
(* "area": one with exactly these rings; "none": no area; "free": nothing is said *)
Verdict(r) ==
    IF ~Divided(r) THEN "bad hint"
    ELSE IF Double(r) /\ ~S.repair THEN "free"
    ELSE LET R == Rings(r)
             E == UNION Range(R)
             gaps == {k \in 1..Len(R) : Gap(r, k)}
         IN IF gaps # {} /\ ~S.repair THEN "none"
            ELSE IF Cardinality(gaps) > 1 THEN "free"
            ELSE IF (\E k \in 1..Len(R) : ~Cycle(R[k]) \/ Crossing(R[k])) \/ Resting(E) THEN "free"   \* a ring crosses itself
            ELSE IF Crossing(E) THEN IF S.repair THEN "free" ELSE "none"
            ELSE IF Gentle(R) THEN "area" ELSE "free"
Merged(Q) == LET t == {<<x, y>> \in Q \X Q : x # y /\ x \cap y # {}} IN
             IF t = {} THEN Q ELSE LET p == CHOOSE p \in t : TRUE IN (Q \ {p[1], p[2]}) \cup {XorE(p[1], p[2])}
Polygons(R) == {<<R[k], Merged({R[m] : m \in {x \in 1..Len(R) : Depth(R, x) % 2 = 1 /\ Of(R, x) = {k}}})>> : k \in {x \in 1..Len(R) : Depth(R, x) % 2 = 0}}
(* ---- tags *)
Ignored == {"type", "created_by", "source", "note"}
Real(tags) == {tags[i] : i \in {k \in 1..Len(tags) : tags[k][1] \notin Ignored}}
Keys(T) == {t[1] : t \in T}
Tags(r) ==     \* the possible sets of tags
    LET R == Rings(r)
        outer == {k \in 1..Len(R) : Depth(R, k) % 2 = 0}
        rt == Range(r.a.tags)
        ow == {w \in UNION {Range(r.rings[k]) : k \in outer} : Real(S.ways[w].a.tags) # {}}
        k1 == CHOOSE k \in outer : TRUE
    IN IF Real(r.a.tags) = {} THEN IF ow = {} THEN {rt} ELSE {rt \cup Real(S.ways[w].a.tags) : w \in ow}
       ELSE IF Cardinality(outer) = 1 /\ Len(r.rings[k1]) = 1 /\ ~Gap(r, k1)
            THEN {rt \cup {t \in Real(S.ways[r.rings[k1][1]].a.tags) : t[1] \notin Keys(Real(r.a.tags))}}
       ELSE {rt}
(* inner rings of one way with tags of their own *)
Extra(r) ==
    LET R == Rings(r)
        one(k) == Len(r.rings[k]) = 1 /\ ~Gap(r, k)
        tg(k) == Real(S.ways[r.rings[k][1]].a.tags)
    IN {r.rings[k][1] : k \in {x \in 1..Len(R) : /\ Depth(R, x) % 2 = 1 /\ one(x) /\ tg(x) # {} /\ tg(x) # Real(r.a.tags)
                                                 /\ \A o \in Of(R, x) : ~(one(o) /\ tg(o) = tg(x))}}
Max2(x, y) == IF x > y THEN x ELSE y
RECURSIVE MaxTs(_, _)
MaxTs(ws, m) == IF ws = {} THEN m ELSE LET w == CHOOSE x \in ws : TRUE IN MaxTs(ws \ {w}, Max2(m, S.ways[w].ts))
(* ---- events *)
Init == l = 1 /\ b = 1 /\ seen = {} /\ due = {}
Begin == Is("begin") /\ due = {} /\ b' = l /\ seen' = {} /\ due' = {}
Pass2 == Is("pass2") /\ UNCHANGED <<b, seen, due>>
InNone(w) == \A i \in 1..Len(S.rels) : IsMP(S.rels[i]) => w \notin MemberWays(S.rels[i])
Must(d) == d[4] = "must"
ForRel(i) == LET r == S.rels[i] v == Verdict(r) IN
    CASE v = "area" -> {<<"r", r.n, i, "must">>} \cup {<<"i", w, i, "must">> : w \in Extra(r)}
      [] v = "none" /\ (\E k \in 1..Len(r.rings) : Gap(r, k)) -> {}
      [] v = "none" -> {<<"i", w, i, "may">> : w \in MemberWays(r)}      \* rings that cross
      [] v = "free" -> {<<"i", w, i, "may">> : w \in MemberWays(r)} \cup {<<"r", r.n, i, "may">>}
Way == /\ Is("way") /\ ~\E d \in due : Must(d)
       /\ seen' = seen \cup {Ev.id}
       /\ due' = UNION {ForRel(i) : i \in {k \in 1..Len(S.rels) : IsMP(S.rels[k]) /\ Ev.id \in MemberWays(S.rels[k]) /\ Complete(S.rels[k], seen')}}
                 \cup (LET n == S.ways[Ev.id].nodes IN IF InNone(Ev.id) /\ Len(n) >= 4 /\ n[1][1] = n[Len(n)][1] THEN {<<"w", Ev.id, 0, "must">>} ELSE {})
       /\ UNCHANGED b
Same(x, y) == x.v = y.v /\ x.cs = y.cs /\ x.uid = y.uid /\ x.user = y.user /\ x.vis = y.vis
AllSame == /\ \A k \in 1..Len(Ev.same) : Ev.same[k] = Ev.rings
           /\ Ev.c = Ev.a /\ Ev.gid = Ev.a.id /\ Ev.type = 3
RingSet(p) == <<EdgesOf(p[1]), {EdgesOf(p[k]) : k \in 2..Len(p)}>>
Good(p) == /\ \A k \in 1..Len(p) : Closed(p[k])
           /\ Clockwise(p[1]) /\ \A k \in 2..Len(p) : Counter(p[k])
           /\ Cardinality({EdgesOf(p[k]) : k \in 1..Len(p)}) = Len(p)
RelArea(r) ==
    /\ ~Ev.from_way /\ Ev.orig = r.n /\ Ev.n = Twice(r.n, 1)
    /\ Same(Ev.a, r.a) /\ Ev.a.ts = ToString(MaxTs(Full(r), r.ts))
    /\ Range(Ev.a.tags) \in Tags(r) /\ Len(Ev.a.tags) = Cardinality(Range(Ev.a.tags))
    /\ (\A k \in 1..Len(Ev.rings) : Good(Ev.rings[k])) = TRUE
    /\ Len(Ev.rings) = Cardinality(Polygons(Rings(r)))
    /\ {RingSet(Ev.rings[k]) : k \in 1..Len(Ev.rings)} = Polygons(Rings(r))
WayArea(w) == LET o == S.ways[w] IN
    /\ Ev.from_way /\ Ev.orig = o.n /\ Ev.n = Twice(o.n, 0)
    /\ Same(Ev.a, o.a) /\ Ev.a.ts = ToString(o.ts) /\ Ev.a.tags = o.a.tags
Area == /\ Is("area") /\ AllSame
        /\ \E d \in due :
           /\ due' = IF Must(d) THEN due \ {d} ELSE due
           /\ CASE d[1] = "r" -> IF Must(d) THEN RelArea(S.rels[d[3]]) ELSE ~Ev.from_way /\ Ev.orig = d[2]
                [] d[1] = "w" -> WayArea(d[2]) /\ Ev.rings = <<<<Pts(d[2])>>>>
                [] d[1] = "i" -> IF Must(d) THEN /\ WayArea(d[2]) /\ Len(Ev.rings) = 1 /\ Len(Ev.rings[1]) = 1
                                                 /\ Closed(Ev.rings[1][1]) /\ Clockwise(Ev.rings[1][1]) /\ EdgesOf(Ev.rings[1][1]) = EdgesOf(Pts(d[2]))
                                 ELSE Ev.from_way /\ Ev.orig = S.ways[d[2]].n
        /\ UNCHANGED <<b, seen>>
End == Is("end") /\ (~\E d \in due : Must(d)) /\ due' = {} /\ UNCHANGED <<b, seen>>
Next == Begin \/ Pass2 \/ Way \/ Area \/ End
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
