------------------------------ MODULE JsTrace -------------------------------
(* Trace specification for C32. A scenario gives the files of a script as operations *)
(* (JsOps); "load" events tell which file starts, "cpp" events every callback of a   *)
(* C++ handler with the object as C++ sees it, "js" events every call of a function  *)
(* of the script with the object as the script sees it.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, JsOps
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, phase, loads, wait, at, seen, pos, text
vars == <<l, b, phase, loads, wait, at, seen, pos, text>>
Ev == Trace[l]
S == Trace[b]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
Done == Files(S.files, S.start, None)
Env == Done.env
Range(s) == {s[i] : i \in 1..Len(s)}

(* ---- the script's view of an object *)
Keys(o) == {o.tags[i][1] : i \in 1..Len(o.tags)}
First(o, k) == LET i == CHOOSE i \in 1..Len(o.tags) : o.tags[i][1] = k /\ \A j \in 1..(i - 1) : o.tags[j][1] # k IN o.tags[i][2]
Get(o, k) == IF k \in Keys(o) THEN <<First(o, k)>> ELSE <<>>
Tags(v, o) == /\ Range(v.keys) = Keys(o) /\ Len(v.keys) = Cardinality(Keys(o))
              /\ Len(v.vals) = Len(v.keys) /\ \A i \in 1..Len(v.keys) : v.vals[i] = Get(o, v.keys[i])
              /\ v.look = [i \in 1..Len(S.look) |-> Get(o, S.look[i])]
Common(v, c, o) == /\ v.id = o.id /\ v.v = o.v /\ v.iso = c.iso /\ v.uid = o.uid /\ v.user = o.user
                   /\ v.cs = o.cs /\ v.vis = o.vis /\ v.types = "number,number,string,number,string,number,boolean"
List(v, n) == /\ v.n = n /\ v.beyond = <<<<>>, <<>>, <<>>>>
              /\ v.idx = [i \in 1..n |-> i - 1]
View(v, c) == LET o == c.o IN
    /\ Common(v, c, o) /\ Tags(v, o)
    /\ v.nodes = o.nodes /\ v.mem = o.mem /\ v.geom = c.geom
    /\ CASE c.cb = "way" -> List(v, Len(o.nodes))
         [] c.cb = "relation" -> List(v, Len(o.mem))
         [] OTHER -> v.n = 0 /\ v.idx = <<>> /\ v.beyond = <<>>
    /\ v.from = IF c.cb = "area" THEN c.from ELSE ""

(* ---- text files: cells with tabs between, one row per line *)
RECURSIVE Row(_)
Row(c) == IF Len(c) = 1 THEN c[1] ELSE c[1] \o "%09" \o Row(Tail(c))

(* ---- attributes of shapefiles: what a C++ program would write *)
Yes == {"true", "T", "t", "True", "Yes", "y", "1", "1.5", "1x", "%201"}
No == {"false", "F", "f", "No", "n", "0", "none"}
RECURSIVE Fits(_, _)
Fits(s, w) == IF s = <<>> \/ Len(s[1]) \div 3 > w THEN 0   \* characters are given as %XX..
              ELSE 1 + Fits(Tail(s), w - Len(s[1]) \div 3)
RECURSIVE Glue(_)
Glue(s) == IF s = <<>> THEN "" ELSE s[1] \o Glue(Tail(s))
Calls(f, x) == CASE x[1] \in {"missing", "undefined", "null"} -> <<"null", "">>
                 [] f[1] = "string" -> <<"str", Glue(SubSeq(x[2], 1, Fits(x[2], f[2])))>>
                 [] f[1] = "integer" -> <<"int", x[2]>>
                 [] f[1] = "bool" -> IF x[2] \in Yes THEN <<"bool", "T">> ELSE IF x[2] \in No THEN <<"bool", "F">> ELSE <<"null", "">>
RightCalls == \A r \in 1..Len(S.rows) : \A i \in 1..Len(S.fields) : S.calls[r][i] = Calls(S.fields[i], S.rows[r][i])

Init == l = 1 /\ b = 0 /\ phase = "idle" /\ loads = 0 /\ wait = "" /\ at = 0 /\ seen = <<>> /\ pos = 0 /\ text = ""
Begin == /\ Is("begin") /\ phase = "idle"
         /\ b' = l /\ phase' = "load" /\ loads' = 0 /\ wait' = "" /\ at' = 0 /\ pos' = 0 /\ text' = ""
         /\ seen' = IF Ev.mode = "alone" THEN seen ELSE <<>>
Load == /\ Is("load") /\ phase = "load" /\ loads < Len(Done.log) /\ Ev.k = Done.log[loads + 1]
        /\ loads' = loads + 1 /\ UNCHANGED <<b, phase, wait, at, seen, pos, text>>
Ready == loads = Len(Done.log) /\ S.code = 0 /\ RightCalls
Cpp == /\ Is("cpp") /\ S.mode # "alone" /\ wait = ""
       /\ \/ phase = "load" /\ Ready /\ Ev.cb = "init"
          \/ phase = "run"
       /\ phase' = "run" /\ wait' = IF Env[Ev.cb] = "" THEN "" ELSE Ev.cb
       /\ at' = l /\ UNCHANGED <<b, loads, seen, pos, text>>
Js == /\ Is("js") /\ wait # "" /\ Ev.cb = wait /\ Ev.fn = Env[wait]
      /\ IF wait \in {"node", "way", "relation", "area"} THEN Len(Ev.v) = 1 /\ View(Ev.v[1], Trace[at]) ELSE Ev.v = <<>>
      /\ wait' = "" /\ seen' = Append(seen, l) /\ UNCHANGED <<b, phase, loads, at, pos, text>>
(* without a C++ handler the script sees the same again *)
Alone == /\ Is("js") /\ S.mode = "alone" /\ (phase = "run" \/ (phase = "load" /\ Ready))
         /\ pos < Len(seen) /\ LET w == Trace[seen[pos + 1]] IN Ev.cb = w.cb /\ Ev.fn = w.fn /\ Ev.v = w.v
         /\ phase' = "run" /\ pos' = pos + 1 /\ UNCHANGED <<b, loads, wait, at, seen, text>>
Csv == /\ Is("csv") /\ phase = "run" /\ text' = text \o Row(Ev.cells) \o "%0A"
       /\ UNCHANGED <<b, phase, loads, wait, at, seen, pos>>
Ret == /\ Is("ret") /\ wait = ""
       /\ \/ phase = "run" \/ (S.mode = "alone" /\ Ready)
       /\ S.mode = "alone" => pos = Len(seen)
       /\ phase' = "after" /\ UNCHANGED <<b, loads, wait, at, seen, pos, text>>
File1 == /\ Is("file") /\ phase = "after" /\ Ev.text = text /\ UNCHANGED <<b, phase, loads, wait, at, seen, pos, text>>
Twin == /\ Is("twin") /\ phase = "after" /\ Ev.same = <<TRUE, TRUE, TRUE, TRUE, TRUE>> /\ UNCHANGED <<b, phase, loads, wait, at, seen, pos, text>>
EndS == /\ Is("endscn") /\ phase = "after" /\ phase' = "idle" /\ UNCHANGED <<b, loads, wait, at, seen, pos, text>>
(* a script that cannot be run ends the program before anything is read *)
Exit == /\ Is("exit") /\ phase = "load" /\ S.code # 0 /\ Ev.code = S.code
        /\ phase' = "idle" /\ UNCHANGED <<b, loads, wait, at, seen, pos, text>>
Others == Begin \/ Load \/ Cpp \/ Js \/ Alone \/ Csv \/ Ret \/ File1 \/ Twin \/ EndS \/ Exit
(* print() with several values: all of them, in order *)
Owed == IF l > 1 /\ Trace[l - 1].e \in {"js", "more"} THEN Trace[l - 1].left ELSE 0
More == /\ Is("more") /\ Owed > 0 /\ Ev.left = Owed - 1 /\ UNCHANGED <<b, phase, loads, wait, at, seen, pos, text>>
Next == More \/ (Owed = 0 /\ Others)
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
