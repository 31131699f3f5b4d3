------------------------------ MODULE MCReader ------------------------------
(* Exhaustive model of Reader: every type sequence up to MaxLen, every stop    *)
(* position, readable and damaged input.  The history variable log is compared *)
(* with an independent, declarative definition of the callback sequence.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxLen, Kinds
VARIABLES s, phase, open, last, run, cnt, calls, log
Scn(x) == x
R == INSTANCE Reader

Seqs == UNION {[1..n -> {"n", "w", "r"}] : n \in 0..MaxLen}

(* declarative: maximal runs *)
RECURSIVE Expect(_, _)
Expect(ts, i) ==   \* callbacks for ts[i..]
    IF i > Len(ts) THEN <<>>
    ELSE LET t == ts[i]
             first == i = 1 \/ ts[i-1] # t
             lastOfRun == i = Len(ts) \/ ts[i+1] # t
         IN (IF first THEN << <<"before", t>> >> ELSE <<>>) \o << <<"obj", i>> >>
            \o (IF lastOfRun THEN << <<"after", t>> >> ELSE <<>>) \o Expect(ts, i + 1)
Implemented(k, ts, c) == \/ c[1] \in {"init", "before", "after", "final"} /\ k # "obj"
                         \/ c[1] = "obj" /\ k \in {"all", "obj", ts[c[2]]}
Full(ts, k) == LET all == << <<"init", 0>> >> \o Expect(ts, 1) \o << <<"final", 0>> >>
               IN SelectSeq(all, LAMBDA c : Implemented(k, ts, c))
WithStop(f, k) == IF k = 0 THEN f ELSE SubSeq(f, 1, k) \o << <<"final", 0>> >>

Init == /\ s \in {[types |-> ts, kind |-> k, mode |-> "file", stop |-> st, out |-> o] :
                     ts \in Seqs, k \in Kinds, st \in 0..(3 * MaxLen + 2), o \in {"ok", "bad"}}
        /\ s.stop < Len(Full(s.types, s.kind))
        /\ s.out = "bad" => s.stop = 0
        /\ s.kind = "obj" => s.stop = 0
        /\ R!Reset(s) /\ log = <<>>
A(name, x) == IF name = "obj" \/ R!SeesFrame THEN log' = Append(log, <<name, x>>) ELSE UNCHANGED log

MInit     == R!CallInit /\ A("init", 0)
MBefore   == \E t \in {"n","w","r"} : R!CallBefore(t) /\ A("before", t)
MObj      == \E t \in {"n","w","r"} : R!SeesObj(t) /\ R!CallObj(t) /\ A("obj", R!Total + 1)
MSkip     == \E t \in {"n","w","r"} : ~R!SeesObj(t) /\ R!SkipObj(t) /\ UNCHANGED log
MAfter    == \E t \in {"n","w","r"} : R!CallAfter(t) /\ A("after", t)
MStop     == R!Stop /\ UNCHANGED log
MFinal    == R!CallFinal /\ A("final", 0)
MReturn   == R!Return /\ UNCHANGED log
MFail     == R!Fail /\ UNCHANGED log
Done      == phase = "done" /\ UNCHANGED <<s, phase, open, last, run, cnt, calls, log>>
Next == MInit \/ MBefore \/ MObj \/ MSkip \/ MAfter \/ MStop \/ MFinal \/ MReturn \/ MFail \/ Done
Spec == Init /\ [][Next]_<<s, phase, open, last, run, cnt, calls, log>> /\ WF_<<s, phase, open, last, run, cnt, calls, log>>(Next)

(* C01, C02 *)
PrefixOfExpected == IsPrefix(log, WithStop(Full(s.types, s.kind), s.stop))
CompleteAtEnd    == (phase = "done" /\ s.out = "ok") => log = WithStop(Full(s.types, s.kind), s.stop)
FinalLastOnce    == \A i \in 1..Len(log) : log[i][1] = "final" => i = Len(log)
BadNeverFinal    == s.out = "bad" => ~(\E i \in 1..Len(log) : log[i][1] = "final")
Ends             == <>(phase = "done")

(* test generation: one line per scenario *)
Emit == (phase = "new" /\ s.out = "ok") => PrintT("GEN " \o ToJson([types |-> s.types, kind |-> s.kind, stop |-> s.stop]))
=============================================================================
