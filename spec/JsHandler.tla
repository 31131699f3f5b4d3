----------------------------- MODULE JsHandler ------------------------------
(* A JavaScript handler beside a C++ handler on the same input (C32). The script is  *)
(* loaded operation by operation (a stack of files being run), then its callbacks    *)
(* are looked up once, then every callback of the reader goes to both handlers.      *)
EXTENDS Integers, Sequences, FiniteSets, JsOps
CONSTANTS MaxOps, MaxCalls, Fault
Kinds == {"init", "node", "end"}
Op == {[op |-> "set", cb |-> c, fn |-> f, k |-> 0] : c \in Kinds, f \in {"a", "b"}} \cup
      {[op |-> "unset", cb |-> c, fn |-> "", k |-> 0] : c \in {"node"}} \cup {[op |-> "inc", cb |-> "", fn |-> "", k |-> 2]}
Plain == {o \in Op : o.op # "inc"}
Progs == {f \in [1..2 -> UNION {[1..n -> Op] : n \in 0..MaxOps}] : \A i \in 1..Len(f[2]) : f[2][i] \in Plain}
VARIABLES files, order, stack, env, log, picked, phase, cpp, js
vars == <<files, order, stack, env, log, picked, phase, cpp, js>>
Init == /\ files \in Progs /\ order \in {<<1>>, <<2, 1>>}
        /\ stack = <<>> /\ env = None.env /\ log = <<>> /\ picked = None.env /\ phase = "load" /\ cpp = <<>> /\ js = <<>>
Start == /\ phase = "load" /\ stack = <<>> /\ order # <<>>
         /\ stack' = <<[f |-> Head(order), k |-> 1]>> /\ order' = Tail(order) /\ log' = Append(log, Head(order))
         /\ picked' = IF "early" \in Fault /\ Tail(order) = <<>> THEN env ELSE picked      \* before the last file ran
         /\ UNCHANGED <<files, env, phase, cpp, js>>
Top == stack[Len(stack)]
Step == /\ phase = "load" /\ stack # <<>>
        /\ LET t == Top below == SubSeq(stack, 1, Len(stack) - 1) IN
           IF t.k > Len(files[t.f]) THEN stack' = below /\ UNCHANGED <<env, log>>
           ELSE LET o == files[t.f][t.k] next == [t EXCEPT !.k = @ + 1] IN
                IF o.op = "inc" THEN /\ stack' = below \o <<next, [f |-> o.k, k |-> 1]>> /\ log' = Append(log, o.k) /\ UNCHANGED env
                ELSE /\ stack' = Append(below, next) /\ UNCHANGED log
                     /\ env' = IF "first" \in Fault /\ env[o.cb] # "" THEN env ELSE [env EXCEPT ![o.cb] = IF o.op = "unset" THEN "" ELSE o.fn]
        /\ UNCHANGED <<files, order, picked, phase, cpp, js>>
Pick == /\ phase = "load" /\ stack = <<>> /\ order = <<>>
        /\ picked' = IF "early" \in Fault THEN picked ELSE env
        /\ phase' = "run" /\ UNCHANGED <<files, order, stack, env, log, cpp, js>>
Call(c) == /\ phase = "run" /\ Len(cpp) < MaxCalls
           /\ c = "init" <=> cpp = <<>>
           /\ cpp' = Append(cpp, c)
           /\ js' = IF picked[c] = "" \/ ("noend" \in Fault /\ c = "end") THEN js ELSE Append(js, <<c, picked[c]>>)
           /\ phase' = IF c = "end" THEN "done" ELSE phase
           /\ UNCHANGED <<files, order, stack, env, log, picked>>
Next == Start \/ Step \/ Pick \/ \E c \in Kinds : Call(c)
Spec == Init /\ [][Next]_vars
(* stepwise loading and the recursive definition agree *)
Started == IF log # <<>> /\ log[1] = 2 THEN <<2, 1>> ELSE <<1>>
Loaded == phase # "load" => [env |-> env, log |-> log] = Files(files, Started, None)
RECURSIVE Mirror(_, _)
Mirror(s, e) == IF s = <<>> THEN <<>> ELSE (IF e[Head(s)] = "" THEN <<>> ELSE <<<<Head(s), e[Head(s)]>>>>) \o Mirror(Tail(s), e)
Same == phase # "load" => js = Mirror(cpp, Files(files, Started, None).env)
=============================================================================
