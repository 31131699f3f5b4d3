------------------------------- MODULE Osmjs --------------------------------
(* Design of the osmjs program (C37): options one after the other, scripts loaded,  *)
(* then one pass (nodes are stored before ways are shown) or two passes, the first  *)
(* of which only looks for relations and is not seen by the script.                 *)
EXTENDS Integers, Sequences, FiniteSets, OsmjsOps
CONSTANTS MaxOpts, MaxObjs, Fault
Opts == {[o |-> x, a |-> ""] : x \in {"d", "2", "m", "r", "h", "?"}} \cup {[o |-> "l", a |-> x] : x \in {"none", "vector", "other"}} \cup
        {[o |-> "i", a |-> x] : x \in {<<"a">>, <<"b", ".", "j">>, <<"c">>}} \cup {[o |-> "j", a |-> 4]}
Tree == <<[dir |-> ".", name |-> <<"a", ".", "j", "s">>, k |-> 1], [dir |-> "home", name |-> <<"a", ".", "j", "s">>, k |-> 2], [dir |-> "js", name |-> <<"b", ".", "j">>, k |-> 3]>>
Bad == <<"", "", "throws", "">>
(* a file: a node, ways that are closed or not, relations that need ways; in this order *)
Objs == {"n", "w", "c", "r"}    \* c: a closed way; r: a multipolygon of all ways
Rank == [n |-> 1, w |-> 2, c |-> 2, r |-> 3]
Files == {s \in UNION {[1..n -> Objs] : n \in 0..MaxObjs} : (\A i, j \in 1..Len(s) : i < j => Rank[s[i]] <= Rank[s[j]]) /\ Cardinality({i \in 1..Len(s) : s[i] = "r"}) <= 1}
VARIABLES file, pos, given, cfg, phase, todo, log, pass, at, rels, stored, calls
vars == <<file, pos, given, cfg, phase, todo, log, pass, at, rels, stored, calls>>
Init == /\ file \in Files /\ pos \in {"none", "stdin", "file"}
        /\ given = <<>> /\ cfg = Start /\ phase = "args" /\ todo = <<>> /\ log = <<>> /\ pass = 0 /\ at = 0 /\ rels = 0 /\ stored = FALSE /\ calls = <<>>
Give(o) == /\ phase = "args" /\ Len(given) < MaxOpts /\ cfg.exit = -1
           /\ given' = Append(given, o)
           /\ cfg' = IF "first" \in Fault /\ o.o = "l" /\ cfg.store # "none" /\ o.a \in Stores THEN cfg ELSE Option(cfg, o, Tree)
           /\ UNCHANGED <<file, pos, phase, todo, log, pass, at, rels, stored, calls>>
Go == /\ phase = "args"
      /\ LET c == IF "unchecked" \in Fault THEN (IF cfg.exit = -1 /\ (cfg.main = 0 \/ pos = "none") THEN [cfg EXCEPT !.exit = 1] ELSE cfg) ELSE Checked(cfg, pos) IN
         /\ cfg' = c /\ phase' = IF c.exit = -1 THEN "load" ELSE "over"
         /\ todo' = IF "mainfirst" \in Fault THEN <<c.main>> \o c.incs ELSE c.incs \o <<c.main>>
      /\ UNCHANGED <<file, pos, given, log, pass, at, rels, stored, calls>>
Load == /\ phase = "load" /\ todo # <<>>
        /\ log' = Append(log, Head(todo)) /\ todo' = Tail(todo)
        /\ IF Bad[Head(todo)] # "" THEN cfg' = [cfg EXCEPT !.exit = 1] /\ phase' = "over" ELSE UNCHANGED <<cfg, phase>>
        /\ UNCHANGED <<file, pos, given, pass, at, rels, stored, calls>>
Begin == /\ phase = "load" /\ todo = <<>>
         /\ phase' = "read" /\ at' = 0 /\ pass' = IF cfg.two THEN 1 ELSE 2
         /\ UNCHANGED <<file, pos, given, cfg, todo, log, rels, stored, calls>>
Ways == {i \in 1..Len(file) : file[i] \in {"w", "c"}}
Shown(i) == LET x == file[i] p == cfg.store # "none" /\ stored IN <<x, i, IF x \in {"w", "c"} THEN p ELSE FALSE>>
Areas(i) == IF ~cfg.two THEN <<>>
            ELSE IF rels > 0 THEN IF i \in Ways /\ \A j \in Ways : j <= i THEN <<<<"area", 0, cfg.store # "none" /\ stored>>>> ELSE <<>>
            ELSE IF file[i] = "c" THEN <<<<"area", i, cfg.store # "none" /\ stored>>>> ELSE <<>>
Read == /\ phase = "read" /\ at < Len(file)
        /\ at' = at + 1
        /\ IF pass = 1 THEN /\ rels' = IF file[at + 1] = "r" THEN rels + 1 ELSE rels
                            /\ calls' = IF "twice" \in Fault THEN Append(calls, Shown(at + 1)) ELSE calls
                            /\ UNCHANGED stored
           ELSE /\ UNCHANGED rels
                /\ stored' = (stored \/ (file[at + 1] = "n" /\ "unstored" \notin Fault))
                /\ calls' = Append(calls, Shown(at + 1)) \o Areas(at + 1)
        /\ UNCHANGED <<file, pos, given, cfg, phase, todo, log, pass>>
Turn == /\ phase = "read" /\ at = Len(file)
        /\ IF pass = 1 THEN pass' = 2 /\ at' = 0 /\ UNCHANGED <<phase, cfg>>
           ELSE phase' = "over" /\ cfg' = [cfg EXCEPT !.exit = 0] /\ UNCHANGED <<pass, at>>
        /\ UNCHANGED <<file, pos, given, todo, log, rels, stored, calls>>
Next == (\E o \in Opts : Give(o)) \/ Go \/ Load \/ Begin \/ Read \/ Turn
Spec == Init /\ [][Next]_vars
(* ---- what is promised *)
Cmd == Command(given, Tree, pos)
Over == phase = "over"
RightExit == Over => cfg.exit = IF Cmd.exit # -1 THEN Cmd.exit ELSE IF Loads(Cmd, Bad).ok THEN 0 ELSE 1
RightLoads == Over => log = IF Cmd.exit # -1 THEN <<>> ELSE Loads(Cmd, Bad).log
Ran == Over /\ Cmd.exit = -1 /\ Loads(Cmd, Bad).ok
Plain(s) == SelectSeq(s, LAMBDA c : c[1] # "area")
Once == /\ Ran => [i \in 1..Len(Plain(calls)) |-> <<Plain(calls)[i][1], Plain(calls)[i][2]>>] = [i \in 1..Len(file) |-> <<file[i], i>>]
        /\ (Over /\ ~Ran) => calls = <<>>
Positions == Ran => \A i \in 1..Len(calls) : calls[i][1] \in {"w", "c", "area"} => calls[i][3] = (Cmd.store # "none" /\ \E j \in 1..Len(file) : file[j] = "n")
AreasRight == Ran => LET a == {calls[i][2] : i \in {j \in 1..Len(calls) : calls[j][1] = "area"}} IN
              a = IF ~Cmd.two THEN {} ELSE IF \E j \in 1..Len(file) : file[j] = "r" THEN IF Ways = {} THEN {} ELSE {0}
                  ELSE {j \in Ways : file[j] = "c"}
NoGuess == phase \in {"load", "read"} => ~(cfg.two /\ (cfg.store = "none" \/ pos = "stdin"))
=============================================================================
