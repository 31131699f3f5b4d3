---------------------------- MODULE TagTextTrace ----------------------------
(* Trace specification for C25. "text": parameters, tags and the text written, as *)
(* byte sequences; the text must be exactly what the parameters say. "hstore":     *)
(* additionally read back by the hstore grammar.                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Ev == Trace[l]
Q == 34  BS == 92  EQ == 61  GT == 62  COMMA == 44
In(x, s) == \E i \in DOMAIN s : s[i] = x
RECURSIVE Esc(_, _, _), Text(_, _, _)
Esc(s, i, set) == IF i > Len(s) THEN <<>> ELSE (IF In(s[i], set) THEN <<BS, s[i]>> ELSE <<s[i]>>) \o Esc(s, i + 1, set)
Text(e, i, acc) == IF i > Len(e.tags) THEN acc
    ELSE Text(e, i + 1, acc \o (IF i > 1 THEN e.join ELSE <<>>) \o e.pre \o Esc(e.tags[i].k, 1, e.esc) \o e.inf \o Esc(e.tags[i].v, 1, e.esc) \o e.suf)
(* the hstore reader: position after the quoted text at p and the text, or 0 *)
RECURSIVE Quoted(_, _, _)
Quoted(s, p, acc) ==
    IF p > Len(s) THEN <<0, acc>>
    ELSE IF s[p] = Q THEN <<p + 1, acc>>
    ELSE IF s[p] = BS THEN (IF p < Len(s) THEN Quoted(s, p + 2, Append(acc, s[p + 1])) ELSE <<0, acc>>)
    ELSE Quoted(s, p + 1, Append(acc, s[p]))
RECURSIVE Hstore(_, _, _)
Hstore(s, p, acc) ==     \* the tags from p on, or <<"error">>
    IF p > Len(s) \/ s[p] # Q THEN <<"error">>
    ELSE LET k == Quoted(s, p + 1, <<>>) IN
         IF k[1] = 0 \/ k[1] + 2 > Len(s) \/ SubSeq(s, k[1], k[1] + 2) # <<EQ, GT, Q>> THEN <<"error">>
         ELSE LET v == Quoted(s, k[1] + 3, <<>>)
                  r == Append(acc, [k |-> k[2], v |-> v[2]])
              IN IF v[1] = 0 THEN <<"error">>
                 ELSE IF v[1] > Len(s) THEN r
                 ELSE IF s[v[1]] # COMMA THEN <<"error">>
                 ELSE Hstore(s, v[1] + 1, r)
Parsed(s) == IF s = <<>> THEN <<>> ELSE Hstore(s, 1, <<>>)
Init == l = 1
Written == /\ l <= Len(Trace) /\ Ev.e = "text" /\ Ev.same /\ Ev.out = Text(Ev, 1, <<>>) /\ l' = l + 1
HstoreWritten == /\ l <= Len(Trace) /\ Ev.e = "hstore" /\ Ev.same /\ Parsed(Ev.out) = Ev.tags /\ l' = l + 1
Next == Written \/ HstoreWritten
Spec == Init /\ [][Next]_l
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
