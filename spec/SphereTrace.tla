----------------------------- MODULE SphereTrace ----------------------------
(* Trace specification for C36. Distances are micrometres as numbers of Big, <<>>  *)
(* if not a number. "pair": positions a, b, d and the distances that have to be    *)
(* the same: back, moved in longitude, mirrored east-west and north-south, from    *)
(* bare degrees. "tri": a detour. "way": a list of positions, the distances of     *)
(* its pairs, its length forwards and backwards.                                 *)
EXTENDS Sequences, TLC, Json, IOUtils
LOCAL INSTANCE Big
S == INSTANCE Sphere WITH H <- 1800000000
LOCAL INSTANCE Integers
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Number(d) == d # <<>> /\ LessEq(Zero, d)
Half == <<0, 20, 207, 3400, 1>>            \* half of the circumference, 20 020 734 m (and 1 um)
NearlyHalf == <<0, 20, 143, 0, 0>>         \* 6.4 km less
(* rounding; near the opposite place the formula loses precision *)
Tol(d) == IF LessEq(NearlyHalf, d) THEN OfInt(1000000) ELSE OfInt(40 + d[2])
Near(x, y) == Number(x) /\ Number(y) /\ LessEq(AbsV(Sub(x, y)), Tol(x))
Micro(u) == \* u angle units in um: 11122.63 per unit, here a hundredfold
    LET b == OfInt(u) IN Add(Mul(Mul(b, 11122), 100), Mul(b, 63))
NearRule(d, u) == LessEq(AbsV(Sub(Mul(d, 100), Micro(u))), Mul(Tol(d), 100))
Pair == /\ Is("pair") /\ Number(Ev.d)
        /\ \A u \in S!Sure(Ev.a, Ev.b) : NearRule(Ev.d, u)
        /\ LessEq(Ev.d, Add(Half, Tol(Half)))
        /\ S!Same(Ev.a, Ev.b) => LessEq(Ev.d, IF S!DLon(Ev.a[1], Ev.b[1]) = 0 THEN Zero ELSE Tol(Zero))
        /\ (Ev.a[2] # Ev.b[2]) => Less(Zero, Ev.d)
        /\ \A k \in 1..Len(Ev.same) : Near(Ev.same[k], Ev.d)
Tri == /\ Is("tri") /\ Number(Ev.ab) /\ Number(Ev.bc) /\ Number(Ev.ac)
       /\ LessEq(Ev.ac, Add(Add(Ev.ab, Ev.bc), Add(Tol(Ev.ab), Add(Tol(Ev.bc), Tol(Ev.ac)))))
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN Zero ELSE Add(Sum(s, n - 1), s[n])
Way == /\ Is("way") /\ Number(Ev.d) /\ Number(Ev.back) /\ Len(Ev.pairs) = (IF Ev.n = 0 THEN 0 ELSE Ev.n - 1)
       /\ \A k \in 1..Len(Ev.pairs) : Number(Ev.pairs[k])
       /\ LET s == Sum(Ev.pairs, Len(Ev.pairs))
              t == OfInt(40 + Len(Ev.pairs) + s[2] + 10000 * s[1])
              far == Len(SelectSeq(Ev.pairs, LAMBDA x : LessEq(NearlyHalf, x))) IN
          /\ LessEq(AbsV(Sub(Ev.d, s)), t)
          /\ LessEq(AbsV(Sub(Ev.back, s)), Add(t, OfInt(1000000 * far)))
          /\ Ev.n < 2 => Ev.d = Zero /\ Ev.back = Zero
Next == Pair \/ Tri \/ Way \/ Is("begin")
Spec == l = 1 /\ [][Next]_l
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
