----------------------------- MODULE RingBuild -----------------------------
(* C30: joining the member ways of a multipolygon relation into rings. A ring is   *)
(* grown from the first free way by trying the free ways in order, turned around   *)
(* where needed, taking back the last one when there is no way on or the closed    *)
(* line runs through a node twice. What is left is checked for open ends; with     *)
(* repair these are joined in pairs, and rings are built again.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NodeSet, MaxWays, Fault
VARIABLES ways, repair, used, rings, stack, cand, phase, orig
vars == <<ways, repair, used, rings, stack, cand, phase, orig>>
N == Len(ways)
Front(w) == ways[w][1]
Back(w) == ways[w][2]
EndOf(e) == IF e[2] THEN Front(e[1]) ELSE Back(e[1])
StartOf(e) == IF e[2] THEN Back(e[1]) ELSE Front(e[1])
Top == stack[Len(stack)]
Simple(s) == \A i, j \in 1..Len(s) : i # j => EndOf(s[i]) # EndOf(s[j])
Init == /\ \E n \in 1..MaxWays : ways \in [1..n -> NodeSet \X NodeSet]
        /\ repair \in BOOLEAN /\ orig = Len(ways)
        /\ used = [w \in 1..Len(ways) |-> -1] /\ rings = <<>> /\ stack = <<>> /\ cand = <<>> /\ phase = "start1"
Round == IF phase \in {"start1", "grow1"} THEN 1 ELSE 2
To(p) == phase' = p \o (IF Round = 1 THEN "1" ELSE "2")
Start == /\ phase \in {"start1", "start2"}
         /\ LET free == {w \in 1..N : used[w] = -1} IN
            IF free = {} THEN To("rest") /\ UNCHANGED <<used, stack, cand>>
            ELSE LET w == CHOOSE x \in free : \A y \in free : x <= y IN
                 stack' = <<<<w, FALSE>>>> /\ cand' = <<1>> /\ used' = [used EXCEPT ![w] = Len(rings)] /\ To("grow")
         /\ UNCHANGED <<ways, repair, rings, orig>>
Pop == LET n == Len(stack) IN
       /\ used' = [used EXCEPT ![Top[1]] = IF n = 1 THEN -2 ELSE IF "noback" \in Fault THEN @ ELSE -1]
       /\ stack' = SubSeq(stack, 1, n - 1) /\ cand' = SubSeq(cand, 1, n - 1)
       /\ IF n = 1 THEN To("rest") ELSE UNCHANGED phase
       /\ UNCHANGED rings
Push(e) == /\ stack' = Append(stack, e) /\ cand' = Append([cand EXCEPT ![Len(cand)] = @ + 1], 1)
           /\ used' = [used EXCEPT ![e[1]] = Len(rings)] /\ UNCHANGED <<rings, phase>>
Grow == /\ phase \in {"grow1", "grow2"}
        /\ IF StartOf(stack[1]) = EndOf(Top)
           THEN IF Simple(stack) \/ "nosimple" \in Fault
                THEN rings' = Append(rings, stack) /\ stack' = <<>> /\ cand' = <<>> /\ To("start") /\ UNCHANGED used
                ELSE Pop
           ELSE LET c == cand[Len(cand)] IN
                IF c > N THEN Pop
                ELSE IF used[c] < 0 /\ Front(c) = EndOf(Top) THEN Push(<<c, FALSE>>)
                ELSE IF used[c] < 0 /\ Back(c) = EndOf(Top) /\ "noturn" \notin Fault THEN Push(<<c, TRUE>>)
                ELSE cand' = [cand EXCEPT ![Len(cand)] = @ + 1] /\ UNCHANGED <<used, stack, rings, phase>>
        /\ UNCHANGED <<ways, repair, orig>>
Left == {w \in 1..N : used[w] < 0}
Ends(W, x) == Cardinality({<<w, i>> \in W \X {1, 2} : ways[w][i] = x})
Dangling(W) == {x \in NodeSet : Ends(W, x) % 2 = 1}
RECURSIVE Pairs(_)
Pairs(D) == IF D = {} THEN {<<>>} ELSE LET a == CHOOSE x \in D : TRUE IN
            UNION {{<<<<a, b>>>> \o p : p \in Pairs(D \ {a, b})} : b \in D \ {a}}
Rest == /\ phase = "rest1"
        /\ IF Dangling(Left) = {} THEN /\ used' = [w \in 1..N |-> IF used[w] < 0 THEN -1 ELSE used[w]] /\ phase' = "start2" /\ UNCHANGED ways
           ELSE IF ~repair THEN phase' = "open" /\ UNCHANGED <<ways, used>>
           ELSE \E p \in Pairs(Dangling(Left)) :
                /\ ways' = ways \o p
                /\ used' = [w \in 1..(N + Len(p)) |-> IF w > N \/ used[w] < 0 THEN -1 ELSE used[w]]
                /\ phase' = "start2"
        /\ UNCHANGED <<repair, rings, stack, cand, orig>>
Done == phase = "rest2" \/ phase = "open"
Next == Start \/ Grow \/ Rest \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Even == Dangling(1..orig) = {}
Closed == \A k \in 1..Len(rings) : LET s == rings[k] IN
          /\ Simple(s) /\ \A i \in 1..Len(s) : EndOf(s[i]) = StartOf(s[(i % Len(s)) + 1])
Once == \A k, m \in 1..Len(rings) : \A i \in 1..Len(rings[k]), j \in 1..Len(rings[m]) : rings[k][i][1] = rings[m][j][1] => k = m /\ i = j
CoveredW == \A w \in 1..N : \E k \in 1..Len(rings) : \E i \in 1..Len(rings[k]) : rings[k][i][1] = w
Complete == Done => IF Even \/ repair THEN phase = "rest2" /\ CoveredW ELSE phase = "open"
NoFiller == Done /\ Even => N = orig
=============================================================================
