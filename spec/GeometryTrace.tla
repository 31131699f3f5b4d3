---------------------------- MODULE GeometryTrace ---------------------------
(* Trace specification for C27: texts and binary geometries are sequences of      *)
(* bytes and are read here by the WKT and WKB grammars, doubles bit by bit.      *)
(* All coordinates are numbers of Big in units of 10^-7 degrees.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
LOCAL INSTANCE Big
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
vars == <<l, g>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
(* ---- arithmetic: division of a number that is not negative, by 1..8192 *)
Div(x, d) == LET h == x[1] \div d   r1 == x[1] % d
                 c1 == r1 * 10000 + x[2]   c2 == (c1 % d) * 10000 + x[3]   c3 == (c2 % d) * 10000 + x[4]   c4 == (c3 % d) * 10000 + x[5]
             IN <<h, c1 \div d, c2 \div d, c3 \div d, c4 \div d>>
Half(x) == Div(Add(x, OfInt(1)), 2)                                    \* x/2, rounded
Neg(s, x) == IF s THEN Sub(Zero, x) ELSE x
RECURSIVE Shift(_, _), Up(_, _)
Shift(x, k) == IF k >= 13 THEN Shift(Div(x, 8192), k - 13) ELSE Div(x, 2^k)   \* x / 2^k, rounded down
Up(x, k) == IF k = 0 THEN x ELSE Up(Mul(x, 2), k - 1)
(* ---- an IEEE double (little endian) times 10^7, rounded *)
Double(b) ==
    LET e == (b[8] % 128) * 16 + b[7] \div 16
        m == Add(Mul(Add(Mul(Add(Mul(Add(Mul(Add(Mul(Add(Mul(OfInt(16 + (b[7] % 16)), 256), OfInt(b[6])), 256), OfInt(b[5])), 256), OfInt(b[4])), 256), OfInt(b[3])), 256), OfInt(b[2])), 256), OfInt(b[1]))
        v == Mul(Mul(m, 100000), 100)
        k == 1075 - e
    IN IF e = 0 THEN Zero
       ELSE IF e > 1035 \/ k > 200 THEN <<999999, 0, 0, 0, 0>>         \* nothing like a coordinate
       ELSE Neg(b[8] >= 128, Half(Shift(v, k - 1)))
(* ---- decimal text: digits, fraction, exponent; <<value, next position>>, 0 for no number *)
IsDigit(x) == x >= 48 /\ x <= 57
At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
RECURSIVE Digits(_, _, _, _), Down10(_, _), Up10(_, _)
Digits(s, p, v, n) == IF IsDigit(At(s, p)) /\ n < 22 THEN Digits(s, p + 1, Add(Mul(v, 10), OfInt(s[p] - 48)), n + 1) ELSE <<v, p, n>>
Down10(x, k) == IF k = 0 THEN x ELSE IF k = 1 THEN Div(Add(x, OfInt(5)), 10) ELSE Down10(Div(x, 10), k - 1)
Up10(x, k) == IF k = 0 THEN x ELSE Up10(Mul(x, 10), k - 1)
Number(s, p) ==
    LET neg == At(s, p) = 45
        a == Digits(s, IF neg THEN p + 1 ELSE p, Zero, 0)
        f == IF At(s, a[2]) = 46 THEN Digits(s, a[2] + 1, a[1], a[3]) ELSE a
        frac == IF At(s, a[2]) = 46 THEN f[3] - a[3] ELSE 0
        ex == At(s, f[2]) = 101
        eneg == ex /\ At(s, f[2] + 1) = 45
        e == IF ex THEN Digits(s, IF eneg \/ At(s, f[2] + 1) = 43 THEN f[2] + 2 ELSE f[2] + 1, Zero, 20) ELSE <<Zero, f[2], 20>>
        ev == IF eneg THEN 0 - e[1][5] ELSE e[1][5]
        sh == 7 - frac + ev
    IN IF a[3] = 0 \/ (ex /\ e[3] = 20) \/ sh > 20 \/ f[3] + sh > 20 THEN <<Zero, 0>>
       ELSE <<Neg(neg, IF sh >= 0 THEN Up10(f[1], sh) ELSE Down10(f[1], 0 - sh)), e[2]>>
(* "x y" at p *)
Pair(s, p) == LET x == Number(s, p)
                  y == IF x[2] > 0 /\ At(s, x[2]) = 32 THEN Number(s, x[2] + 1) ELSE <<Zero, 0>>
              IN <<<<x[1], y[1]>>, y[2]>>
RECURSIVE Pairs(_, _, _)
Pairs(s, p, acc) == LET q == Pair(s, p) IN
    IF q[2] = 0 THEN <<acc, 0>> ELSE IF At(s, q[2]) = 44 THEN Pairs(s, q[2] + 1, Append(acc, q[1])) ELSE <<Append(acc, q[1]), q[2]>>
Lit(s, p, t) == IF p > 0 /\ p + Len(t) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(t) - 1) = t THEN p + Len(t) ELSE 0
Srid == <<83,82,73,68,61,52,51,50,54,59>>          \* SRID=4326;
Word(k) == CASE k = "point" -> <<80,79,73,78,84,40>> [] k = "line" -> <<76,73,78,69,83,84,82,73,78,71,40>> [] k = "polygon" -> <<80,79,76,89,71,79,78,40,40>>
Close(k) == IF k = "polygon" THEN <<41, 41>> ELSE <<41>>
Wkt(s, k, srid) ==      \* the coordinates, or <<<<0>>>> for an error
    LET a == IF srid THEN Lit(s, 1, Srid) ELSE 1
        b == Lit(s, a, Word(k))
        c == IF b = 0 THEN <<<<>>, 0>> ELSE IF At(s, b) = 41 THEN <<<<>>, b>> ELSE Pairs(s, b, <<>>)
    IN IF c[2] > 0 /\ Lit(s, c[2], Close(k)) = Len(s) + 1 THEN c[1] ELSE <<<<0>>>>
(* ---- WKB *)
Int32(b, p) == IF p + 3 > Len(b) \/ b[p + 3] >= 128 THEN 0 - 1 ELSE b[p] + 256 * b[p + 1] + 65536 * b[p + 2] + 16777216 * b[p + 3]
Wkb(b, k, srid) ==
    LET type == (CASE k = "point" -> 1 [] k = "line" -> 2 [] k = "polygon" -> 3) + (IF srid THEN 536870912 ELSE 0)
        p == IF srid THEN 10 ELSE 6
        q == IF k = "point" THEN p ELSE IF k = "line" THEN p + 4 ELSE p + 8
        n == IF k = "point" THEN 1 ELSE Int32(b, q - 4)
    IN IF /\ Len(b) >= 5 /\ b[1] = 1 /\ Int32(b, 2) = type
          /\ (IF srid THEN Int32(b, 6) = 4326 ELSE TRUE)
          /\ (IF k = "polygon" THEN Int32(b, p) = 1 ELSE TRUE)
          /\ n >= 0 /\ n < 100000 /\ Len(b) = q - 1 + 16 * n
       THEN [i \in 1..n |-> <<Double(SubSeq(b, q + 16 * i - 16, q + 16 * i - 9)), Double(SubSeq(b, q + 16 * i - 8, q + 16 * i - 1))>>]
       ELSE <<<<0>>>>
HexDigit(x) == IF IsDigit(x) THEN x - 48 ELSE IF x >= 65 /\ x <= 70 THEN x - 55 ELSE IF x >= 97 /\ x <= 102 THEN x - 87 ELSE 0 - 1000
Unhex(s) == IF Len(s) % 2 = 1 THEN <<>> ELSE [i \in 1..(Len(s) \div 2) |-> 16 * HexDigit(s[2 * i - 1]) + HexDigit(s[2 * i])]
(* ---- the scenario: a way (or a node: one coordinate) *)
Init == l = 1 /\ g = 0
Begin == Is("begin") /\ g' = l
Closed == LET r == Trace[g].refs IN r # <<>> /\ r[1] = r[Len(r)]
Want(rev) == LET c == Trace[g].coords IN [i \in DOMAIN c |-> c[IF rev THEN Len(c) + 1 - i ELSE i]]
Refused == Is("refused") /\ Ev.k = "polygon" /\ ~Closed /\ UNCHANGED g
Made == Ev.k = "polygon" => Closed
Text == Is("wkt") /\ Made /\ Wkt(Ev.s, Ev.k, Ev.srid) = Want(Ev.rev) /\ Ev.id = Trace[g].id /\ UNCHANGED g
Binary == Is("wkb") /\ Made /\ Wkb(Ev.s, Ev.k, Ev.srid) = Want(Ev.rev) /\ UNCHANGED g
Hex == Is("hex") /\ Made /\ Wkb(Unhex(Ev.s), Ev.k, Ev.srid) = Want(Ev.rev) /\ UNCHANGED g
(* an OGR or GEOS geometry: its type and its coordinates as printed numbers *)
Shape == /\ Made /\ Ev.type = (CASE Ev.k = "point" -> "POINT" [] Ev.k = "line" -> "LINESTRING" [] Ev.k = "polygon" -> "POLYGON")
         /\ Ev.rings = (IF Ev.k = "polygon" THEN 1 ELSE 0)
         /\ [i \in DOMAIN Ev.pts |-> <<Number(Ev.pts[i][1], 1)[1], Number(Ev.pts[i][2], 1)[1]>>] = Want(Ev.rev)
Ogr == Is("ogr") /\ Shape /\ UNCHANGED g
(* GEOS knows no lines of one point and no rings of less than four or with open ends *)
NoGeos == LET c == Trace[g].coords n == Len(c) IN
          IF Ev.k = "line" THEN n = 1 ELSE Ev.k = "polygon" /\ n > 0 /\ (n < 4 \/ c[1] # c[n])
Geos == /\ Is("geos") /\ (IF Ev.ok THEN Shape ELSE Made /\ NoGeos) /\ UNCHANGED g
Next == Begin \/ Refused \/ Text \/ Binary \/ Hex \/ Ogr \/ Geos
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
