-------------------------------- MODULE Big ---------------------------------
(* 64 bit integers for TLC: <<h, c, b, a, l>> stands for                       *)
(* h*10^16 + c*10^12 + b*10^8 + a*10^4 + l with 0 <= c,b,a,l < 10^4, h any sign *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
B == 10000
Zero == <<0, 0, 0, 0, 0>>
Norm(v) == \* carry from the low end; \div and % are floored
    LET l1 == v[5]             l == l1 % B
        a1 == v[4] + l1 \div B a == a1 % B
        b1 == v[3] + a1 \div B b == b1 % B
        c1 == v[2] + b1 \div B c == c1 % B
    IN <<v[1] + c1 \div B, c, b, a, l>>
Add(x, y) == Norm(<<x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4], x[5]+y[5]>>)
Sub(x, y) == Norm(<<x[1]-y[1], x[2]-y[2], x[3]-y[3], x[4]-y[4], x[5]-y[5]>>)
Mul(x, k) == Norm(<<x[1]*k, x[2]*k, x[3]*k, x[4]*k, x[5]*k>>)    \* |k| <= 2*10^5
OfInt(n)  == Norm(<<0, 0, 0, 0, n>>)
LessEq(x, y) == LET d == Sub(y, x) IN d[1] >= 0
Less(x, y) == ~LessEq(y, x)
TwoTo64 == <<1844, 6744, 737, 955, 1616>>
TwoTo63 == <<922, 3372, 368, 5477, 5808>>
MinusTwoTo63 == Sub(Zero, TwoTo63)
Wrap(x) == IF LessEq(TwoTo63, x) THEN Sub(x, TwoTo64)
           ELSE IF Less(x, MinusTwoTo63) THEN Add(x, TwoTo64) ELSE x
TwoTo32 == <<0, 0, 42, 9496, 7296>>
TwoTo31 == <<0, 0, 21, 4748, 3648>>
Wrap32(x) == IF LessEq(TwoTo31, x) THEN Sub(x, TwoTo32)
             ELSE IF Less(x, Sub(Zero, TwoTo31)) THEN Add(x, TwoTo32) ELSE x
AbsV(x) == IF x[1] < 0 THEN Sub(Zero, x) ELSE x
=============================================================================
