------------------------------- MODULE TagText ------------------------------
(* C25: tags as text, character by character, and the reading of the hstore form  *)
(* by its own grammar: quoted key, =>, quoted value, separated by commas; inside   *)
(* quotes a backslash makes the next character literal.                        *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Chars, MaxLen, MaxTags, Fault
Q == 34  BS == 92  EQ == 61  GT == 62  COMMA == 44
RECURSIVE Esc(_, _)
Esc(s, set) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in set THEN <<BS, s[1]>> ELSE <<s[1]>>) \o Esc(SubSeq(s, 2, Len(s)), set)
HSet == IF "nobs" \in Fault THEN {Q} ELSE {Q, BS}
Tag(t) == <<Q>> \o Esc(t[1], HSet) \o <<Q, EQ, GT, Q>> \o Esc(t[2], IF "keyonly" \in Fault THEN {} ELSE HSet) \o <<Q>>
RECURSIVE Text(_)
Text(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN Tag(ts[1])
            ELSE Tag(ts[1]) \o (IF "nojoin" \in Fault THEN <<>> ELSE <<COMMA>>) \o Text(SubSeq(ts, 2, Len(ts)))
VARIABLES tags, in, p, st, cur, key, got
vars == <<tags, in, p, st, cur, key, got>>
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Words == SeqsUpTo(Chars, MaxLen)
Init == /\ tags \in SeqsUpTo(Words \X Words, MaxTags)
        /\ in = Text(tags) /\ p = 1 /\ st = "start" /\ cur = <<>> /\ key = <<>> /\ got = <<>>
At(ch) == p <= Len(in) /\ in[p] = ch
Step(s) == p' = p + 1 /\ st' = s /\ UNCHANGED <<tags, in>>
Fail == st' = "error" /\ UNCHANGED <<tags, in, p, cur, key, got>>
Read == /\ p <= Len(in) /\ st # "error"
        /\ CASE st \in {"start", "key?", "val?"} ->
                   IF At(Q) THEN Step(IF st = "val?" THEN "val" ELSE "key") /\ cur' = <<>> /\ UNCHANGED <<key, got>> ELSE Fail
             [] st \in {"keyesc", "valesc"} -> Step(IF st = "keyesc" THEN "key" ELSE "val") /\ cur' = Append(cur, in[p]) /\ UNCHANGED <<key, got>>
             [] st = "key" -> IF At(BS) THEN Step("keyesc") /\ UNCHANGED <<cur, key, got>>
                              ELSE IF At(Q) THEN Step("=") /\ key' = cur /\ UNCHANGED <<cur, got>>
                              ELSE Step("key") /\ cur' = Append(cur, in[p]) /\ UNCHANGED <<key, got>>
             [] st = "val" -> IF At(BS) THEN Step("valesc") /\ UNCHANGED <<cur, key, got>>
                              ELSE IF At(Q) THEN Step("end") /\ got' = Append(got, <<key, cur>>) /\ UNCHANGED <<cur, key>>
                              ELSE Step("val") /\ cur' = Append(cur, in[p]) /\ UNCHANGED <<key, got>>
             [] st = "=" -> IF At(EQ) THEN Step(">") /\ UNCHANGED <<cur, key, got>> ELSE Fail
             [] st = ">" -> IF At(GT) THEN Step("val?") /\ UNCHANGED <<cur, key, got>> ELSE Fail
             [] st = "end" -> IF At(COMMA) THEN Step("key?") /\ UNCHANGED <<cur, key, got>> ELSE Fail
Next == Read
Spec == Init /\ [][Next]_vars
Readable == p > Len(in) \/ st = "error" => st \in {"start", "end"} /\ got = tags
=============================================================================
