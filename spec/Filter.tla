------------------------------- MODULE Filter -------------------------------
(* C24: the scan over a filter's rules and the filtering iterator over a tag     *)
(* list, against "the first rule that matches decides". Keys and values are      *)
(* numbers; value 0 in a rule means any value.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Values, MaxRules, MaxTags, Fault
VARIABLES rules, default, tags, pos, scan, got
vars == <<rules, default, tags, pos, scan, got>>
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Rules == [res : BOOLEAN, key : Keys, val : Values \cup {0}]
Tags == [key : Keys, val : Values]
Init == /\ rules \in SeqsUpTo(Rules, MaxRules) /\ default \in BOOLEAN /\ tags \in SeqsUpTo(Tags, MaxTags)
        /\ pos = 1 /\ scan = 1 /\ got = <<>>
Hit(r, t) == r.key = t.key /\ (r.val = 0 \/ r.val = t.val \/ "keyonly" \in Fault)
Answer(a) == /\ got' = (IF a THEN Append(got, pos) ELSE got) /\ pos' = pos + 1 /\ scan' = 1 /\ UNCHANGED <<rules, default, tags>>
Look == /\ pos <= Len(tags) /\ scan <= Len(rules)
        /\ LET i == IF "last" \in Fault THEN Len(rules) + 1 - scan ELSE scan
               r == rules[i] IN
           IF Hit(r, tags[pos]) /\ ("yesonly" \notin Fault \/ r.res) THEN Answer(r.res)
           ELSE scan' = scan + 1 /\ UNCHANGED <<rules, default, tags, pos, got>>
NoRule == /\ pos <= Len(tags) /\ scan > Len(rules)
          /\ Answer(IF "deny" \in Fault THEN FALSE ELSE default)
Next == Look \/ NoRule
Spec == Init /\ [][Next]_vars
Matching(t) == {i \in DOMAIN rules : rules[i].key = t.key /\ (rules[i].val = 0 \/ rules[i].val = t.val)}
Accepts(t) == IF Matching(t) = {} THEN default ELSE rules[CHOOSE i \in Matching(t) : \A j \in Matching(t) : i <= j].res
Visited == /\ \A i \in 1..(pos - 1) : Accepts(tags[i]) <=> \E k \in DOMAIN got : got[k] = i
           /\ \A k \in 1..(Len(got) - 1) : got[k] < got[k + 1]
=============================================================================
