----------------------------- MODULE OsmjsTrace -----------------------------
(* Trace specification for C37. A scenario gives the command line, the script files *)
(* and the objects of the file; events are what the scripts print (loads, callbacks *)
(* with the objects as the script sees them) and the exit code of the program.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, OsmjsOps
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, phase, n, sect, cur, due, early, areas
vars == <<l, b, phase, n, sect, cur, due, early, areas>>
Ev == Trace[l]
S == Trace[b]
Is(x) == l <= Len(Trace) /\ Ev.e = x /\ l' = l + 1
Range(s) == {s[i] : i \in 1..Len(s)}
Cmd == Command(S.opts, S.tree, S.pos)
Due0 == IF Cmd.exit # -1 THEN [log |-> <<>>, ok |-> FALSE] ELSE Loads(Cmd, S.bad)
N == Len(S.objs)
O(i) == S.objs[i]
(* ---- geometry: a ring or line as its edges *)
EdgesOf(p) == {{p[i], p[i + 1]} : i \in 1..(Len(p) - 1)}
XorE(x, y) == (x \ y) \cup (y \ x)
Of(t) == {i \in 1..N : O(i).t = t}
Placed(w) == Cmd.store # "none" /\ \A i \in 1..Len(w.nodes) : \E k \in Of("n") : O(k).id = w.nodes[i]
Node(id) == O(CHOOSE k \in Of("n") : O(k).id = id)
Pts(w) == IF Placed(w) THEN [i \in 1..Len(w.nodes) |-> <<Node(w.nodes[i]).x, Node(w.nodes[i]).y>>] ELSE <<>>
Loose(w) == Cmd.store \in {"array", "disk"} /\ ~Placed(w)      \* these do not know which nodes there are
Closed(w) == Len(w.nodes) >= 4 /\ w.nodes[1] = w.nodes[Len(w.nodes)]
MPs == {i \in Of("r") : O(i).type \in {"multipolygon", "boundary"}}
Members(r) == {r.mem[i][2] : i \in {k \in 1..Len(r.mem) : r.mem[k][1] = "w"}}
Index(w) == CHOOSE i \in Of("w") : O(i).n = w
There(r) == Members(r) # {} /\ \A w \in Members(r) : \E i \in Of("w") : O(i).n = w
Last(r) == CHOOSE i \in {Index(w) : w \in Members(r)} : \A w \in Members(r) : Index(w) <= i
RECURSIVE XorAll(_)
XorAll(ws) == IF ws = {} THEN {} ELSE LET w == CHOOSE x \in ws : TRUE IN XorE(EdgesOf(Pts(O(Index(w)))), XorAll(ws \ {w}))
Raw(r) == XorAll(Members(r))
Odd(E) == {v \in UNION E : Cardinality({e \in E : v \in e}) % 2 = 1}
Edges(r) == IF Odd(Raw(r)) = {} THEN Raw(r) ELSE Raw(r) \cup {Odd(Raw(r))}
Whole(r) == There(r) /\ (Odd(Raw(r)) = {} \/ (Cmd.repair /\ Odd(Raw(r)) \notin Raw(r)))
DueAt(i) == IF ~areas \/ O(i).t # "w" THEN {}
            ELSE (IF Closed(O(i)) /\ \A r \in MPs : O(i).n \notin Members(O(r)) THEN {<<"way", i>>} ELSE {})
                 \cup {<<"relation", r>> : r \in {x \in MPs : There(O(x)) /\ Last(O(x)) = i /\ Whole(O(x))}}
(* ---- events *)
Init == l = 1 /\ b = 0 /\ phase = "idle" /\ n = 0 /\ sect = "" /\ cur = 0 /\ due = {} /\ early = {} /\ areas = FALSE
Begin == /\ Is("begin") /\ phase = "idle" /\ b' = l /\ phase' = "load" /\ n' = 0 /\ sect' = "" /\ cur' = 0 /\ due' = {} /\ early' = {} /\ areas' = FALSE
Load == /\ Is("load") /\ phase = "load" /\ n < Len(Due0.log)
        /\ Ev.k = Due0.log[n + 1] /\ Ev.argv = S.argv /\ Ev.debug = Cmd.debug
        /\ Range(Ev.has) = {Due0.log[i] : i \in 1..n}
        /\ n' = n + 1 /\ UNCHANGED <<b, phase, sect, cur, due, early, areas>>
Cb(x) == Is("cb") /\ Ev.cb = x
First == /\ Cb("init") /\ phase = "load" /\ Due0.ok /\ n = Len(Due0.log)
         /\ phase' = "run"
         /\ areas' \in (IF Cmd.mp THEN {TRUE} ELSE IF Cmd.two THEN BOOLEAN ELSE {FALSE})   \* -2 alone: the documentation says both
         /\ UNCHANGED <<b, n, sect, cur, due, early>>
Name == [n |-> "nodes", w |-> "ways", r |-> "relations"]
Before == /\ phase = "run" /\ sect = "" /\ cur < N /\ Cb("before_" \o Name[O(cur + 1).t])
          /\ sect' = O(cur + 1).t /\ UNCHANGED <<b, phase, n, cur, due, early, areas>>
After == /\ phase = "run" /\ sect # "" /\ (IF cur = N THEN TRUE ELSE O(cur + 1).t # sect) /\ due = {} /\ early = {} /\ Cb("after_" \o Name[sect])
         /\ sect' = "" /\ UNCHANGED <<b, phase, n, cur, due, early, areas>>
Seen(o) == CASE o.t = "n" -> Ev.cb = "node" /\ Ev.x = o.x /\ Ev.y = o.y
             [] o.t = "w" -> Ev.cb = "way" /\ Ev.nodes = o.nodes /\ (Loose(o) \/ Ev.pts = Pts(o))
             [] o.t = "r" -> Ev.cb = "relation" /\ Ev.mem = o.mids
Object == /\ Is("cb") /\ phase = "run" /\ Ev.cb \in {"node", "way", "relation"} /\ cur < N /\ sect = O(cur + 1).t /\ due = {}
          /\ Ev.id = O(cur + 1).id /\ Ev.tags = O(cur + 1).tags /\ Seen(O(cur + 1))
          /\ cur' = cur + 1 /\ due' = DueAt(cur + 1) \ early /\ early' = {}
          /\ UNCHANGED <<b, phase, n, sect, areas>>
Rings == UNION {Range(Ev.rings[p]) : p \in 1..Len(Ev.rings)}
Fits(d) == LET o == O(d[2]) IN
    /\ Ev.from = d[1]
    /\ IF d[1] = "way" THEN Ev.n = 2 * o.n /\ Ev.rings = IF Placed(o) THEN <<<<Pts(o)>>>> ELSE <<>>
       ELSE /\ Ev.n = 2 * o.n + 1
            /\ \A r \in Rings : Len(r) >= 4 /\ r[1] = r[Len(r)]
            /\ UNION {EdgesOf(r) : r \in Rings} = Edges(o)
Area == /\ Cb("area") /\ phase = "run" /\ sect = "w"
        /\ \/ \E d \in due : Fits(d) /\ due' = due \ {d} /\ UNCHANGED early
           \/ due = {} /\ cur < N /\ \E d \in DueAt(cur + 1) \ early : Fits(d) /\ early' = early \cup {d} /\ UNCHANGED due
        /\ UNCHANGED <<b, phase, n, sect, cur, areas>>
End == /\ Cb("end") /\ phase = "run" /\ sect = "" /\ cur = N /\ due = {} /\ S.input = "ok"
       /\ phase' = "end" /\ UNCHANGED <<b, n, sect, cur, due, early, areas>>
Failed(c) == c = -6 \/ c \in 1..127
Exit == /\ Is("exit") /\ phase \in {"load", "run", "end"}
        /\ IF Cmd.exit # -1 THEN phase = "load" /\ n = 0 /\ Ev.code = Cmd.exit
           ELSE IF ~Due0.ok THEN phase = "load" /\ n = Len(Due0.log) /\ Ev.code = 1
           ELSE IF S.input = "ok" THEN phase = "end" /\ Ev.code = 0
           ELSE phase # "end" /\ Failed(Ev.code)          \* text not yet shown may be lost
        /\ phase' = "idle" /\ UNCHANGED <<b, n, sect, cur, due, early, areas>>
Next == Begin \/ Load \/ First \/ Before \/ After \/ Object \/ Area \/ End \/ Exit
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
