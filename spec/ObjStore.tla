------------------------------ MODULE ObjStore ------------------------------
(* C16/C17: the object store as a machine (ordered containers that keep one    *)
(* object per equivalence class of the library's order), feeding a handler and  *)
(* merging into an ordered stream, against what a user relies on.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Poss, Negs, Vers, Types, MaxOps, MaxStream, Fault
(* an object is <<type, id, version, serial number>>; the serial tells contents apart *)
Ids == Poss \cup {0 - i : i \in Negs}
VARIABLES store,      \* per type: the container, a sequence
          want,       \* per type: set of objects a user must find in it
          mode, todo, \* "idle"; "feed"/"merge" with what the type in turn still holds
          stream, out, k, clr, done
vars == <<store, want, mode, todo, stream, out, k, clr, done>>
Abs(i) == IF i < 0 THEN 0 - i ELSE i
Key(o) == <<o[2], o[3]>>
Before(a, b) ==      \* the library's order of two objects of one type
    IF a[2] = b[2] THEN a[3] < b[3]
    ELSE IF Abs(a[2]) = Abs(b[2]) /\ "abs" \notin Fault THEN a[2] < b[2]
    ELSE Abs(a[2]) < Abs(b[2])
Equiv(a, b) == ~Before(a, b) /\ ~Before(b, a)
Init == /\ store = [t \in Types |-> <<>>] /\ want = [t \in Types |-> {}] /\ mode = "idle" /\ todo = [t \in Types |-> <<>>]
        /\ stream = <<>> /\ out = <<>> /\ k = 0 /\ clr = FALSE /\ done = FALSE
Insert(s, o) ==
    LET at == Cardinality({i \in 1..Len(s) : Before(s[i], o)})
        same == {i \in 1..Len(s) : Equiv(s[i], o)}
    IN IF same # {} THEN (IF "replace" \in Fault THEN [s EXCEPT ![CHOOSE i \in same : TRUE] = o] ELSE s)
       ELSE SubSeq(s, 1, at) \o <<o>> \o SubSeq(s, at + 1, Len(s))
Put(t, i, v) == LET o == <<t, i, v, k>> IN
    /\ mode = "idle"
    /\ store' = [store EXCEPT ![t] = Insert(@, o)]
    /\ want' = [want EXCEPT ![t] = IF \E x \in @ : Key(x) = Key(o) THEN @ ELSE @ \cup {o}]
    /\ out' = <<>> /\ UNCHANGED <<mode, todo, stream, clr, done>>
Clear(t) == /\ mode = "idle" /\ store' = [store EXCEPT ![t] = <<>>] /\ want' = [want EXCEPT ![t] = {}]
            /\ out' = <<>> /\ UNCHANGED <<mode, todo, stream, clr, done>>
(* merging a store into a sorted stream, callback by callback *)
RECURSIVE MergeT(_, _, _)
MergeT(s, q, t) == \* s stored, q the stream's objects of this type
    IF s = <<>> THEN q ELSE IF q = <<>> THEN s
    ELSE IF Before(Head(s), Head(q)) THEN <<Head(s)>> \o MergeT(Tail(s), q, t) ELSE <<Head(q)>> \o MergeT(s, Tail(q), t)
TypeSeq == <<"n", "w", "r">>
Of(q, t) == SelectSeq(q, LAMBDA o : o[1] = t)
Part(t, q) == LET s == store[t] IN
    IF Of(q, t) = <<>> /\ (s = <<>> \/ "absent" \in Fault) THEN <<>>
    ELSE << <<"b", t>> >> \o MergeT(s, Of(q, t), t) \o << <<"a", t>> >>
Merge(q) == /\ mode = "idle" /\ stream' = q /\ mode' = "merged"
            /\ out' = << <<"init">> >> \o Part("n", q) \o Part("w", q) \o Part("r", q) \o << <<"fin">> >>
            /\ UNCHANGED <<store, want, todo, clr, done>>
Feed(c) == /\ mode = "idle" /\ mode' = "fed" /\ clr' = c
           /\ out' = << <<"init">> >> \o << <<"b", "n">> >> \o store["n"] \o << <<"a", "n">> >>
                    \o << <<"b", "w">> >> \o store["w"] \o << <<"a", "w">> >>
                    \o << <<"b", "r">> >> \o store["r"] \o << <<"a", "r">> >> \o << <<"fin">> >>
           /\ store' = (IF c THEN [t \in Types |-> IF t = "r" /\ "noclear" \in Fault THEN store[t] ELSE <<>>] ELSE store)
           /\ UNCHANGED <<want, todo, stream, done>>
After == /\ mode \in {"fed", "merged"} /\ mode' = "idle"
         /\ want' = (IF mode = "merged" \/ clr THEN [t \in Types |-> {}] ELSE want)
         /\ store' = (IF mode = "merged" THEN [t \in Types |-> <<>>] ELSE store)
         /\ out' = <<>> /\ stream' = <<>> /\ clr' = FALSE /\ UNCHANGED <<todo, done>>
Sorted(q) == \A i \in 1..Len(q) - 1 :
    \/ (q[i][1] = q[i + 1][1] /\ ~Before(q[i + 1], q[i]))
    \/ (q[i][1] = "n" /\ q[i + 1][1] # "n")
    \/ (q[i][1] = "w" /\ q[i + 1][1] = "r")
Streams == {q \in UNION {[1..n -> {<<t, i, v, 100>> : t \in Types, i \in Ids, v \in Vers}] : n \in 0..MaxStream} : Sorted(q)}
Op == \/ \E t \in Types, i \in Ids, v \in Vers : Put(t, i, v)
      \/ \E t \in Types : Clear(t)
      \/ \E c \in BOOLEAN : Feed(c)
      \/ \E x \in Streams : Merge(x)
Next == \/ (k < MaxOps /\ k' = k + 1 /\ Op)
        \/ (k' = k /\ After)
Spec == Init /\ [][Next]_vars
Range(q) == {q[i] : i \in 1..Len(q)}
Objs(t) == SelectSeq(out, LAMBDA x : Len(x) = 4 /\ x[1] = t)
(* every wanted object exactly once, in order, in its bracket *)
FeedRight == mode = "fed" => \A t \in Types :
    LET q == Objs(t) IN /\ Len(q) = Cardinality(want[t]) /\ Range(q) = want[t]
                        /\ \A i \in 1..Len(q) - 1 : Abs(q[i][2]) < Abs(q[i + 1][2]) \/ (Abs(q[i][2]) = Abs(q[i + 1][2]) /\ (q[i][2] # q[i + 1][2] \/ q[i][3] < q[i + 1][3]))
Empty == mode = "fed" /\ clr => \A t \in Types : store[t] = <<>>
Pos(x) == CHOOSE i \in 1..Len(out) : out[i] = x
Bracketed == mode \in {"fed", "merged"} => \A i \in 1..Len(out) : Len(out[i]) = 4 =>
    \E a, b \in 1..Len(out) : a < i /\ i < b /\ out[a] = <<"b", out[i][1]>> /\ out[b] = <<"a", out[i][1]>>
                              /\ \A j \in (a + 1)..(b - 1) : Len(out[j]) = 4 /\ out[j][1] = out[i][1]
MergeRight == mode = "merged" => \A t \in Types :
    LET q == Objs(t) IN /\ Len(q) = Cardinality(want[t]) + Len(Of(stream, t))
                        /\ Range(q) = want[t] \cup Range(Of(stream, t))
                        /\ SelectSeq(q, LAMBDA x : x[4] = 100) = Of(stream, t)
                        /\ \A i \in 1..Len(q) - 1 : ~Before(q[i + 1], q[i])
=============================================================================
