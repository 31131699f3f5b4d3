------------------------------- MODULE Reader -------------------------------
(* How reading an OSM file drives a handler (C01, C02; the reading side of all *)
(* file properties).  One action per callback of the reader; the scenario s    *)
(* fixes the input and the handler.  Scn(s) is a record:                       *)
(*   types  sequence over {"n","w","r"}: the objects in the file, in order     *)
(*   kind   which callbacks the handler implements                             *)
(*   mode   "file": objects must come in file order;                           *)
(*          "type": only the order within a type is fixed (counts in cnts)     *)
(*   stop   k > 0: the handler asks to stop inside its k-th callback           *)
(*   out    "ok": the input is readable; anything else: reading must fail      *)
EXTENDS Integers, Sequences

CONSTANT Scn(_)
VARIABLES s,        \* scenario
          phase,    \* new, run, stopped, finaled, done
          open,     \* type of the run whose bracket is open, "-" if none
          last,     \* type of the previous run
          run,      \* objects delivered in the open run
          cnt,      \* objects delivered, per type
          calls     \* observable callbacks made so far

rvars == <<s, phase, open, last, run, cnt, calls>>
Types == {"n", "w", "r"}

SeesObj(t)   == Scn(s).kind \in {"all", "mut", "obj", t}
SeesFrame    == Scn(s).kind # "obj"          \* init, before/after and final implemented
Total        == cnt["n"] + cnt["w"] + cnt["r"]
NObj         == Len(Scn(s).types)
FileOrder    == Scn(s).mode = "file"
HasNext(t)   == IF FileOrder THEN Total < NObj /\ Scn(s).types[Total + 1] = t
                             ELSE cnt[t] < Scn(s).cnts[t]
Remaining    == Total < NObj

Reset(x) == /\ s = x
            /\ phase = "new" /\ open = "-" /\ last = "-" /\ run = 0
            /\ cnt = [t \in Types |-> 0] /\ calls = 0

MayCall == Scn(s).stop = 0 \/ calls < Scn(s).stop

CallInit ==
    /\ phase = "new" /\ MayCall
    /\ phase' = "run" /\ calls' = calls + 1
    /\ UNCHANGED <<s, open, last, run, cnt>>

CallBefore(t) ==
    /\ phase = "run" /\ open = "-" /\ MayCall
    /\ HasNext(t) /\ t # last
    /\ open' = t /\ run' = 0 /\ calls' = calls + 1
    /\ UNCHANGED <<s, phase, last, cnt>>

(* object callback the handler implements *)
CallObj(t) ==
    /\ phase = "run" /\ open = t /\ MayCall
    /\ HasNext(t)
    /\ run' = run + 1 /\ cnt' = [cnt EXCEPT ![t] = @ + 1] /\ calls' = calls + 1
    /\ UNCHANGED <<s, phase, open, last>>

(* the reader passes over an object whose callback the handler does not implement *)
SkipObj(t) ==
    /\ phase = "run" /\ open = t /\ HasNext(t)
    /\ run' = run + 1 /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<s, phase, open, last, calls>>

CallAfter(t) ==
    /\ phase = "run" /\ open = t /\ run > 0 /\ MayCall
    /\ FileOrder => ~HasNext(t)
    /\ open' = "-" /\ last' = t /\ calls' = calls + 1
    /\ UNCHANGED <<s, phase, run, cnt>>

(* the handler raised the stop signal inside the callback just made *)
Stop ==
    /\ phase = "run" /\ Scn(s).stop > 0 /\ calls = Scn(s).stop
    /\ phase' = "stopped"
    /\ UNCHANGED <<s, open, last, run, cnt, calls>>

CallFinal ==
    /\ \/ phase = "run" /\ open = "-" /\ ~Remaining /\ Scn(s).out = "ok" /\ MayCall
       \/ phase = "stopped"
    /\ phase' = "finaled" /\ calls' = calls + 1
    /\ UNCHANGED <<s, open, last, run, cnt>>

Return ==
    /\ phase = "finaled"
    /\ phase' = "done"
    /\ UNCHANGED <<s, open, last, run, cnt, calls>>

(* only for unreadable input: at any point before final *)
Fail ==
    /\ phase \in {"new", "run"} /\ Scn(s).out # "ok"
    /\ phase' = "done"
    /\ UNCHANGED <<s, open, last, run, cnt, calls>>
=============================================================================
