----------------------------- MODULE WriteTrace -----------------------------
(* C10: recorded write calls of the real writers under injected faults.        *)
(* begin: total (bytes of the complete content), expect ("ok": nothing but     *)
(* short counts happens; "fail": something certainly fails; "any").            *)
(* wr: n bytes offered, ret bytes accepted (or < 0), match: the offered bytes  *)
(* are the content from the position reached so far; soft: an interrupted call *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, phase, done, failed, thrown
vars == <<l, s, phase, done, failed, thrown>>
Ev == Trace[l]
S == Trace[s]
Is(name) == l <= Len(Trace) /\ Ev.e = name /\ l' = l + 1
Init == l = 1 /\ s = 0 /\ phase = "idle" /\ done = 0 /\ failed = FALSE /\ thrown = FALSE
Begin == /\ Is("begin") /\ phase = "idle" /\ s' = l /\ phase' = "writing" /\ done' = 0 /\ failed' = FALSE /\ thrown' = FALSE
WrOk == /\ Is("wr") /\ phase = "writing" /\ Ev.ret > 0
        /\ ~failed => Ev.match /\ Ev.ret <= Ev.n /\ done + Ev.ret <= S.total
        /\ done' = done + Ev.ret /\ UNCHANGED <<s, phase, failed, thrown>>
WrFail == /\ Is("wr") /\ phase = "writing" /\ Ev.ret <= 0
          /\ failed' = (failed \/ ~Ev.soft) /\ UNCHANGED <<s, phase, done, thrown>>
WThrow == /\ Is("wthrow") /\ phase = "writing" /\ S.expect # "ok"
          /\ thrown' = TRUE /\ UNCHANGED <<s, phase, done, failed>>
WFinal == /\ Is("wfinal") /\ phase = "writing" /\ Ev.ok = ~thrown
          /\ failed => thrown                       \* a write call failed: reported
          /\ S.expect = "fail" => thrown
          /\ ~thrown => (S.direct => done = S.total)
          /\ phase' = "file" /\ UNCHANGED <<s, done, failed, thrown>>
(* the file afterwards *)
Content == /\ Is("content") /\ phase = "file"
           /\ ~thrown => Ev.same
           /\ phase' = "res" /\ UNCHANGED <<s, done, failed, thrown>>
Res == /\ Is("res") /\ phase = "res" /\ Ev.fds = 0 /\ Ev.children = 0
       /\ phase' = "idle" /\ UNCHANGED <<s, done, failed, thrown>>
Next == Begin \/ WrOk \/ WrFail \/ WThrow \/ WFinal \/ Content \/ Res
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
