----------------------------- MODULE OrderTrace -----------------------------
(* Trace specification for C18: comparison tables recorded from the library     *)
(* must be those of the lexicographic order of the keys.  keys of objects:       *)
(* <<magnitude of id, sign, version>> cut into small integers, of way nodes: ref. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
RECURSIVE Lex(_, _, _)
Lex(x, y, i) == IF i > Len(x) THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE Lex(x, y, i + 1)
Less(x, y) == Lex(x, y, 1)
InRow(r, j) == \E k \in 1..Len(r) : r[k] = j
Table(m, n, P(_, _)) == Len(m) = n /\ \A i, j \in 1..n : InRow(m[i], j) <=> P(i, j)
Init == l = 1
Begin == Is("begin")
Objs == /\ Is("objs")
        /\ LET k == Ev.keys n == Len(k) L(i, j) == Less(k[i], k[j]) IN
           /\ Table(Ev.lt, n, L) /\ Table(Ev.plt, n, L)
           /\ Table(Ev.gt, n, LAMBDA i, j : L(j, i)) /\ Table(Ev.le, n, LAMBDA i, j : ~L(j, i)) /\ Table(Ev.ge, n, LAMBDA i, j : ~L(i, j))
           /\ Len(Ev.sorted) = n /\ \A i \in 1..n : \E j \in 1..n : Ev.sorted[j] = i
           /\ \A i \in 1..n - 1 : ~L(Ev.sorted[i + 1], Ev.sorted[i])
           /\ \A i \in 1..Len(Ev.set) - 1 : L(Ev.set[i], Ev.set[i + 1])
           /\ \A i \in 1..n : \E j \in 1..Len(Ev.set) : k[Ev.set[j]] = k[i]
Pos == /\ Is("pos")
       /\ LET p == Ev.p n == Len(p)
              L(i, j) == Less(p[i], p[j])  E(i, j) == p[i] = p[j]
          IN /\ Table(Ev.lt, n, L) /\ Table(Ev.eq, n, E)
             /\ Table(Ev.gt, n, LAMBDA i, j : L(j, i)) /\ Table(Ev.ne, n, LAMBDA i, j : ~E(i, j))
             /\ Table(Ev.le, n, LAMBDA i, j : ~L(j, i)) /\ Table(Ev.ge, n, LAMBDA i, j : ~L(i, j))
Wns == /\ Is("wns")
       /\ LET k == Ev.keys n == Len(k) IN
          /\ Table(Ev.lt, n, LAMBDA i, j : Less(k[i], k[j])) /\ Table(Ev.eq, n, LAMBDA i, j : k[i] = k[j])
          /\ Table(Ev.ne, n, LAMBDA i, j : k[i] # k[j])
Und(s) == IF Less(s[2], s[1]) THEN <<s[2], s[1]>> ELSE s
Flat(s) == s[1] \o s[2]
Segs == /\ Is("segs")
        /\ LET s == Ev.s n == Len(s)
               U == [i \in 1..n |-> Und(s[i])]
               L(i, j) == Less(Flat(U[i]), Flat(U[j]))
           IN /\ Ev.ends = s /\ Ev.und = U /\ Ev.rev = U
              /\ Table(Ev.eq, n, LAMBDA i, j : s[i] = s[j]) /\ Table(Ev.ne, n, LAMBDA i, j : s[i] # s[j])
              /\ Table(Ev.ueq, n, LAMBDA i, j : U[i] = U[j]) /\ Table(Ev.ult, n, L)
              /\ Table(Ev.ugt, n, LAMBDA i, j : L(j, i)) /\ Table(Ev.ule, n, LAMBDA i, j : ~L(j, i)) /\ Table(Ev.uge, n, LAMBDA i, j : ~L(i, j))
Next == Begin \/ Objs \/ Pos \/ Wns \/ Segs
Spec == Init /\ [][Next]_l
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
