---------------------------- MODULE CalendarTrace ---------------------------
(* Trace specification for C26. Texts are sequences of byte values, times are     *)
(* numbers of Big; the environment's time zone must not matter. "iso": time to    *)
(* text and, for non-empty texts, back. "old": times before 1970, to text only.   *)
(* "parse": text to time, or refused. "set": an object's timestamp set from text. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CalendarOps
LOCAL INSTANCE Big
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Ev == Trace[l]
Digit(x) == 48 + x
Two(x) == <<Digit(x \div 10), Digit(x % 10)>>
Iso(day, sec) ==
    LET c == Civil(day)
        h == sec \div 3600  mi == (sec \div 60) % 60  s == sec % 60
    IN <<Digit(c[1] \div 1000), Digit((c[1] \div 100) % 10), Digit((c[1] \div 10) % 10), Digit(c[1] % 10), 45>>
       \o Two(c[2]) \o <<45>> \o Two(c[3]) \o <<84>> \o Two(h) \o <<58>> \o Two(mi) \o <<58>> \o Two(s) \o <<90>>
Time(day, sec) == Add(Mul(OfInt(day), 86400), OfInt(sec))
(* ---- reading text: a number of at most k digits, possibly after blanks; result <<value, next position>>, position 0 if none *)
Blank(x) == x = 32 \/ (x >= 9 /\ x <= 13)
IsDigit(x) == x >= 48 /\ x <= 57
RECURSIVE Blanks(_, _), Digits(_, _, _, _, _)
Blanks(s, p) == IF p <= Len(s) /\ Blank(s[p]) THEN Blanks(s, p + 1) ELSE p
Digits(s, p, k, v, any) ==
    IF k > 0 /\ p <= Len(s) /\ IsDigit(s[p]) THEN Digits(s, p + 1, k - 1, 10 * v + s[p] - 48, TRUE)
    ELSE IF any THEN <<v, p>> ELSE <<0, 0>>
Number(s, p, k, strict) == IF p = 0 THEN <<0, 0>>
    ELSE IF strict THEN (LET r == Digits(s, p, k, 0, FALSE) IN IF r[2] = p + k THEN r ELSE <<0, 0>>)
    ELSE Digits(s, Blanks(s, p), k, 0, FALSE)
Sep(s, p, ch) == IF p > 0 /\ p <= Len(s) /\ s[p] = ch THEN p + 1 ELSE 0
Fields(s, strict) ==     \* <<y, m, d, h, mi, s>>, or <<>>
    LET y == Number(s, 1, 4, strict)
        m == Number(s, Sep(s, y[2], 45), 2, strict)
        d == Number(s, Sep(s, m[2], 45), 2, strict)
        h == Number(s, Sep(s, d[2], 84), 2, strict)
        i == Number(s, Sep(s, h[2], 58), 2, strict)
        c == Number(s, Sep(s, i[2], 58), 2, strict)
    IN IF Sep(s, c[2], 90) = Len(s) + 1 THEN <<y[1], m[1], d[1], h[1], i[1], c[1]>> ELSE <<>>
(* real times in exactly the documented form: have to be read *)
Proper(f) == /\ f # <<>> /\ f[1] >= 1970 /\ f[2] \in 1..12 /\ f[3] >= 1 /\ f[3] <= MonthLength(f[1], f[2])
             /\ f[4] < 24 /\ f[5] < 60 /\ f[6] < 60
(* what has this structure at least loosely: may be read or refused *)
Loose(f) == f # <<>> /\ f[2] \in 1..12 /\ f[3] \in 1..31 /\ f[4] < 24 /\ f[5] < 60 /\ f[6] <= 61
Must(s) == Proper(Fields(s, TRUE))
May(s) == Loose(Fields(s, FALSE))
ValueOf(s) == LET f == Fields(s, TRUE) IN Time(Days(f[1], f[2], f[3]), 3600 * f[4] + 60 * f[5] + f[6])
Result(s, ok, value) ==
    IF Must(s) THEN ok /\ value = ValueOf(s)
    ELSE IF May(s) THEN TRUE
    ELSE ~ok
Init == l = 1
ToText == /\ l <= Len(Trace) /\ Ev.e = "iso" /\ Ev.t = Time(Ev.day, Ev.sec) /\ Ev.sec >= 0 /\ Ev.sec < 86400
          /\ IF Ev.t = Zero THEN Ev.s = <<>> ELSE Ev.s = Iso(Ev.day, Ev.sec) /\ Ev.back = Ev.t
          /\ Ev.endt = Ev.s /\ Ev.objt = Ev.s        \* the same text from an object's timestamp and end time
          /\ l' = l + 1
(* before 1970: t is the number of seconds until 1970 *)
Early == /\ l <= Len(Trace) /\ Ev.e = "old" /\ Ev.day < 0 /\ Ev.sec >= 0 /\ Ev.sec < 86400
         /\ Add(Ev.t, OfInt(Ev.sec)) = Mul(OfInt(-Ev.day), 86400)
         /\ Ev.s = Iso(Ev.day, Ev.sec) /\ Ev.endt = Ev.s /\ Ev.objt = Ev.s
         /\ l' = l + 1
Parse == /\ l <= Len(Trace) /\ Ev.e = "parse" /\ Result(Ev.s, Ev.ok, Ev.t) /\ l' = l + 1
Set == /\ l <= Len(Trace) /\ Ev.e = "set" /\ Result(Ev.s, Ev.ok, Ev.t)
       /\ (IF Ev.ok THEN TRUE ELSE Ev.t = Ev.old)
       /\ l' = l + 1
Next == ToText \/ Early \/ Parse \/ Set
Spec == Init /\ [][Next]_l
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
