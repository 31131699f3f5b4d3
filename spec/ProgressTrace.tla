---------------------------- MODULE ProgressTrace ---------------------------
(* Trace specification for C35: what the progress handler writes to a terminal.  *)
(* "shown": a callback, with the parts of the text written meanwhile:           *)
(* hide/show: the cursor; line: counts [n, w, r] (-1: not shown), rate and unit  *)
(* ("" if none); avg: the averages; "clock": time in milliseconds.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, step, tty, now, cnt, first, ph
vars == <<l, step, tty, now, cnt, first, ph>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
T == {"n", "w", "r"}
None == -1
(* objects per second; printed whole, from single precision numbers *)
Rate(k, ms) == IF ms <= 0 THEN 0 ELSE (k * 1000) \div ms
NearRate(x, k, ms) == LET q == Rate(k, ms) IN x >= q - 1 - q \div 1000000 /\ x <= q + 1 + q \div 1000000 /\ x >= 0
Unit(t) == CASE t = "n" -> "Nodes" [] t = "w" -> "Ways" [] t = "r" -> "Relations"
Current(c) == IF c["r"] > 0 THEN "r" ELSE IF c["w"] > 0 THEN "w" ELSE IF c["n"] > 0 THEN "n" ELSE ""
Counts(c) == <<c["n"], IF c["w"] > 0 \/ c["r"] > 0 THEN c["w"] ELSE None, IF c["r"] > 0 THEN c["r"] ELSE None>>
LineOk(x, c, f, rates) ==
    /\ x.counts = Counts(c)
    /\ IF rates /\ Current(c) # "" THEN x.unit = Unit(Current(c)) /\ NearRate(x.rate, c[Current(c)], now - f[Current(c)])
       ELSE x.unit = ""
EndOf(t) == CASE t = "r" -> now [] t = "w" -> IF cnt["r"] > 0 THEN first["r"] ELSE now
              [] t = "n" -> IF cnt["w"] > 0 THEN first["w"] ELSE IF cnt["r"] > 0 THEN first["r"] ELSE now
Seen == SelectSeq(<<"n", "w", "r">>, LAMBDA t : cnt[t] > 0)
AvgOk(a) == /\ Len(a) = Len(Seen)
            /\ \A i \in 1..Len(a) : a[i][2] = Unit(Seen[i]) /\ NearRate(a[i][1], cnt[Seen[i]], EndOf(Seen[i]) - first[Seen[i]])
Nothing == Ev.hide = 0 /\ Ev.show = 0 /\ Ev.lines = <<>> /\ Ev.avg = <<>> /\ ~Ev.average
Init == l = 1 /\ step = 0 /\ tty = FALSE /\ now = 0 /\ cnt = [t \in T |-> 0] /\ first = [t \in T |-> None] /\ ph = "idle"
Begin == /\ Is("begin") /\ ph = "idle" /\ step' = Ev.step /\ tty' = Ev.tty /\ now' = 0 /\ ph' = "run"
         /\ cnt' = [t \in T |-> 0] /\ first' = [t \in T |-> None]
Clock == Is("clock") /\ ph = "run" /\ now' = Ev.ms /\ UNCHANGED <<step, tty, cnt, first, ph>>
Off == /\ Is("shown") /\ ~tty /\ Nothing /\ Ev.rest = "" /\ UNCHANGED <<step, tty, now, cnt, first, ph>>
Start == /\ Is("shown") /\ tty /\ Ev.c = "init" /\ Ev.rest = ""
         /\ Ev.hide = 1 /\ Ev.show = 0 /\ Len(Ev.lines) = 1 /\ ~Ev.average /\ LineOk(Ev.lines[1], cnt, first, TRUE)
         /\ UNCHANGED <<step, tty, now, cnt, first, ph>>
Obj == /\ Is("shown") /\ tty /\ Ev.c \in T /\ Ev.rest = ""
       /\ cnt' = [cnt EXCEPT ![Ev.c] = @ + 1]
       /\ first' = IF first[Ev.c] = None THEN [first EXCEPT ![Ev.c] = now] ELSE first
       /\ IF cnt'[Ev.c] % step = 0
          THEN Ev.hide = 0 /\ Ev.show = 0 /\ ~Ev.average /\ Len(Ev.lines) = 1 /\ LineOk(Ev.lines[1], cnt', first', TRUE)
          ELSE Nothing
       /\ UNCHANGED <<step, tty, now, ph>>
Frame == /\ Is("shown") /\ tty /\ Ev.c \in {"bn", "an", "bw", "aw", "br", "ar"} /\ Nothing /\ Ev.rest = ""
         /\ UNCHANGED <<step, tty, now, cnt, first, ph>>
End == /\ Is("shown") /\ tty /\ Ev.c = "fin" /\ Ev.rest = "" /\ Ev.hide = 0 /\ Ev.show = 1
       /\ Len(Ev.lines) = 1 /\ LineOk(Ev.lines[1], cnt, first, FALSE)
       /\ Ev.average /\ AvgOk(Ev.avg)
       /\ UNCHANGED <<step, tty, now, cnt, first, ph>>
Rest == Is("rest") /\ ph = "run" /\ Ev.s = "" /\ ph' = "idle" /\ UNCHANGED <<step, tty, now, cnt, first>>
Next == Begin \/ Clock \/ Off \/ Start \/ Obj \/ Frame \/ End \/ Rest
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
