---------------------------- MODULE ExportTrace -----------------------------
(* Trace specification for C38. "begin" has the statements of the configuration;   *)
(* "obj" is an object as the library's callbacks got it (parts: its rings or its    *)
(* line, points in 10^-7 degrees), "files" the shapefiles left by the program,      *)
(* read back, and "exit" its exit code.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, ExportOps
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, phase, rows
vars == <<l, cfg, phase, rows>>
Ev == Trace[l]
Is(x) == l <= Len(Trace) /\ Ev.e = x /\ l' = l + 1
(* ---- geometry *)
RECURSIVE Dedupe(_, _)
Dedupe(p, n) == IF n = 0 THEN <<>> ELSE IF n > 1 /\ p[n] = p[n - 1] THEN Dedupe(p, n - 1) ELSE Append(Dedupe(p, n - 1), p[n])
Shape(o, kind) ==      \* <<>> if it cannot be in such a file
    CASE o.on = "node" /\ kind = "point" -> o.parts
      [] o.on = "way" /\ kind = "line" -> LET p == Dedupe(o.parts[1], Len(o.parts[1])) IN IF Len(p) < 2 THEN <<>> ELSE <<p>>
      [] o.on = "area" /\ kind = "polygon" -> o.parts
      [] OTHER -> <<>>
(* ---- what a column shows of a value *)
Digits == {"%30", "%31", "%32", "%33", "%34", "%35", "%36", "%37", "%38", "%39"}
IsInt(v) == v # <<>> /\ LET d == IF v[1] = "%2D" THEN Tail(v) ELSE v IN
            d # <<>> /\ (\A i \in 1..Len(d) : d[i] \in Digits) /\ (d[1] = "%30" => v = <<"%30">>)
(* how a logical value begins *)
Yes(v) == v # <<>> /\ (v[1] \in {"%54", "%74", "%59", "%79"} \/ (v[1] = "%31" /\ (IF Len(v) = 1 THEN TRUE ELSE v[2] \notin Digits)))
No(v) == v # <<>> /\ (v[1] \in {"%46", "%66", "%4E", "%6E"} \/ v = <<"%30">>)
RECURSIVE Fits(_, _), Glue(_), Strip(_)
Fits(s, w) == IF s = <<>> \/ Len(s[1]) \div 3 > w THEN 0 ELSE 1 + Fits(Tail(s), w - Len(s[1]) \div 3)
Glue(s) == IF s = <<>> THEN "" ELSE s[1] \o Glue(Tail(s))
Strip(s) == IF s # <<>> /\ s[Len(s)] = "%20" THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
ShownAs(col, vs, got) ==      \* vs: at most one value
    IF vs = {} THEN got = ""
    ELSE LET v == CHOOSE x \in vs : TRUE IN
         CASE col[2] = "string" -> got = Glue(Strip(SubSeq(v, 1, Fits(v, col[3]))))
           [] col[2] \in {"integer", "double"} -> IF IsInt(v) THEN got = Glue(v) ELSE TRUE
           [] col[2] = "bool" -> IF IsInt(v) /\ Len(v) > 9 THEN TRUE ELSE got = (IF Yes(v) THEN "%54" ELSE IF No(v) THEN "%46" ELSE "")
RowIs(f, row, got) == Len(got) = Len(f.cols)
    /\ \A i \in 1..Len(f.cols) : ShownAs(f.cols[i], row.vals[i], got[i])
FileIs(f, want, got) ==
    /\ got.kind = f.kind /\ Len(got.cols) = Len(f.cols)
    /\ \A i \in 1..Len(f.cols) : got.cols[i] = <<f.cols[i][1], f.cols[i][2], IF f.cols[i][2] = "bool" THEN 1 ELSE f.cols[i][3]>>
    /\ Len(got.rows) = Len(want)
    /\ (\A k \in 1..Len(want) : got.rows[k].parts = want[k].shape /\ RowIs(f, want[k], got.rows[k].vals)) = TRUE
Init == l = 1 /\ cfg = None /\ phase = "idle" /\ rows = <<>>
Begin == /\ Is("begin") /\ phase = "idle" /\ phase' = "run"
         /\ cfg' = ApplyAll(Ev.st, Len(Ev.st)) /\ rows' = [i \in 1..Len(cfg'.files) |-> <<>>]
RECURSIVE Through(_, _, _)
Through(k, o, rs) ==
    IF k > Len(cfg.rules) THEN rs
    ELSE LET r == cfg.rules[k]
             f == cfg.files[r.file]
             s == Shape(o, f.kind) IN
         Through(k + 1, o, IF Matches(r, o.on, o.tags) /\ s # <<>>
                           THEN [rs EXCEPT ![r.file] = Append(@, [shape |-> s, vals |-> RowOf(r, f, o.id, o.tags)])]
                           ELSE rs)
Object == /\ Is("obj") /\ phase = "run" /\ ~cfg.err
          /\ rows' = Through(1, Ev, rows) /\ UNCHANGED <<cfg, phase>>
Files == /\ Is("files") /\ phase = "run" /\ phase' = "read"
         /\ Len(Ev.files) = Len(cfg.files)
         /\ (\A i \in 1..Len(cfg.files) : \E j \in 1..Len(Ev.files) : Ev.files[j].name = cfg.files[i].fname /\ FileIs(cfg.files[i], rows[i], Ev.files[j])) = TRUE
         /\ UNCHANGED <<cfg, rows>>
Exit == /\ Is("exit") /\ phase = "read" /\ phase' = "idle"
        /\ Ev.code = (IF cfg.err THEN 1 ELSE 0) /\ UNCHANGED <<cfg, rows>>
Next == Begin \/ Object \/ Files \/ Exit
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
