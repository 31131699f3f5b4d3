------------------------------- MODULE MCFile -------------------------------
EXTENDS FileLifecycle, TLC, Json
CONSTANTS MaxOps, Gen, Extras
VARIABLE ops
Init == FInit /\ ops = <<>>
Rec(x) == /\ Len(ops) < MaxOps /\ ops' = Append(ops, x)
          /\ (Gen /\ Len(ops') = MaxOps => PrintT("GEN " \o ToJson(ops')))
R == {"ok", "throw"}
Basic(a) ==
    \/ \E k \in Kinds : New(a, k) /\ Rec(<<"new", a, k>>)
    \/ \E k \in Kinds : kind[a] # k /\ Rename(a, k) /\ Rec(<<"ren", a, k>>)
    \/ \E b \in Slots : Copy(a, b) /\ Rec(<<"copy", a, b>>)
    \/ \E b \in Slots : \E r \in R : Assign(a, b, r) /\ Rec(<<"assign", a, b>>)
    \/ \E r \in R : Close(a, r) /\ Rec(<<"close", a, "-">>)
    \/ Destroy(a) /\ Rec(<<"destroy", a, "-">>)
    \/ \E r \in R : Open(a, r, Lowest(os \ {fd[a]})) /\ Rec(<<"open", a, "-">>)
    \/ ReadAll(a) /\ Rec(<<"read", a, "-">>)
    \/ Write(a) /\ Rec(<<"write", a, "-">>)
Around ==
    \/ \E v \in BOOLEAN : Forks(v) /\ Rec(<<"forks", IF v THEN 1 ELSE 0, "-">>)
    \/ Stranger /\ Rec(<<"stranger", 0, "-">>)
    \/ Reap /\ Rec(<<"reap", 0, "-">>)
Next == (Extras /\ Around) \/ \E a \in Slots : Basic(a)
Spec == Init /\ [][Next]_<<fvars, ops>>
View == <<fvars, Len(ops)>>
=============================================================================
