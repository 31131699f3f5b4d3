------------------------------ MODULE ReadTrace -----------------------------
(* Trace specification: every recorded read must be a behaviour of Reader, and *)
(* every delivered object must be the stored one.                              *)
(* A scenario starts with a "begin" event carrying Reader's scenario fields    *)
(* plus how (see OsmData), gen, bounds, multi; it is followed by n events that *)
(* carry the objects of the file in field o ("in" from a generated file or     *)
(* "write" from the library's writer), and possibly by writer events.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, OsmData
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, phase, open, last, run, cnt, calls, kept, nkept
vars == <<l, s, phase, open, last, run, cnt, calls, kept, nkept>>
Scn(x) == Trace[x]
R == INSTANCE Reader

Ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Ev.e = name /\ l' = l + 1
Keep == UNCHANGED <<kept, nkept>>

(* index in Trace of the object the next callback for type t must deliver *)
NextIdx(t) == IF R!FileOrder THEN s + 1 + R!Total
              ELSE s + Scn(s).idx[t][cnt[t] + 1]
Want(t) == IF "hows" \in DOMAIN Scn(s) THEN StoredAll(Scn(s).hows, Trace[NextIdx(t)].o)
           ELSE Stored(Scn(s).how, Trace[NextIdx(t)].o)

Init == l = 1 /\ R!Reset(0) /\ kept = <<>> /\ nkept = 0

Begin == /\ Is("begin") /\ (l = 1 \/ phase = "res")
         /\ s' = l /\ phase' = "input" /\ open' = "-" /\ last' = "-" /\ run' = 0
         /\ cnt' = [t \in R!Types |-> 0] /\ calls' = 0 /\ kept' = <<>> /\ nkept' = 0
(* the objects of the file (consumed in one step: they are data, not behaviour) *)
In == /\ \/ Is("in") \/ Is("write")
      /\ phase = "input" /\ l <= s + R!NObj
      /\ UNCHANGED <<s, phase, open, last, run, cnt, calls>> /\ Keep
WDone == /\ Is("wfinal") /\ phase = "input" /\ l > s + R!NObj /\ Ev.ok
         /\ UNCHANGED <<s, phase, open, last, run, cnt, calls>> /\ Keep
Go == /\ Is("read") /\ phase = "input" /\ l > s + R!NObj
      /\ phase' = "new"
      /\ UNCHANGED <<s, open, last, run, cnt, calls>> /\ Keep

TInit == Is("init") /\ R!SeesFrame /\ R!CallInit /\ Keep
         /\ Ev.gen = Scn(s).gen /\ Ev.bounds = Scn(s).bounds /\ Ev.multi = Scn(s).multi
TBefore == Is("before") /\ R!SeesFrame /\ R!CallBefore(Ev.t) /\ Keep
TObj == /\ Is("obj") /\ R!SeesObj(Ev.o.t)
        /\ R!CallObj(Ev.o.t)
        /\ Ev.o = Want(Ev.o.t)
        /\ Ev.et = "0"                 \* files have no end times
        /\ kept' = IF Ev.keep THEN Append(kept, l) ELSE kept
        /\ UNCHANGED nkept
TAfter == Is("after") /\ R!SeesFrame /\ R!CallAfter(Ev.t) /\ Keep
TStop == Is("stop") /\ R!Stop /\ Keep
TFinal == Is("final") /\ R!SeesFrame /\ R!CallFinal /\ Keep
TRet == Is("ret") /\ R!Return /\ Keep
AnyError == {"osm", "history", "io", "std", "xml"}
TThrow == /\ Is("throw") /\ R!Fail
          /\ Ev.x \in {Scn(s).out} \cup (IF Scn(s).out \in {"any", "refuse"} THEN AnyError ELSE {})
          /\ Scn(s).out # "any" => R!Total = 0 /\ open = "-"     \* a file of the wrong kind: before any object
          /\ Keep
(* C03: what was kept is still what was delivered *)
TRecheck == /\ Is("recheck") /\ phase = "done" /\ nkept < Len(kept)
            /\ nkept' = nkept + 1 /\ Ev.o = Trace[kept[nkept + 1]].o
            /\ UNCHANGED <<s, phase, open, last, run, cnt, calls, kept>>
(* no descriptor and no child process left behind *)
TRes == /\ Is("res") /\ phase = "done" /\ nkept = Len(kept)
        /\ Ev.fds = 0 /\ Ev.children = 0
        /\ phase' = "res"
        /\ UNCHANGED <<s, open, last, run, cnt, calls>> /\ Keep

(* silent: callbacks the handler does not implement *)
Silent == /\ UNCHANGED l /\ Keep /\ s > 0 /\ phase \in {"new", "run", "stopped"}
          /\ \/ \E t \in R!Types : ~R!SeesObj(t) /\ R!SkipObj(t)
             \/ /\ ~R!SeesFrame
                /\ \/ R!CallInit \/ \E t \in R!Types : R!CallBefore(t) \/ R!CallAfter(t)
                   \/ R!CallFinal

Next == \/ Begin \/ In \/ WDone \/ Go \/ TInit \/ TBefore \/ TObj \/ TAfter \/ TStop \/ TFinal \/ TRet \/ TThrow \/ TRecheck \/ TRes \/ Silent
Spec == Init /\ [][Next]_vars

(* the furthest event explained; silent steps make the diameter useless *)
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
