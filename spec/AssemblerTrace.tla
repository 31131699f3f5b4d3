--------------------------- MODULE AssemblerTrace ---------------------------
(* Trace specification for C19: what a recorded two-pass assembly must do.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, pass,
          ks,       \* events of the kept relations, in order
          got,      \* per kept relation: set of <<member position, stream event>>
          done,     \* relation events handed over
          owe,      \* relation events to hand over before going on
          state,    \* "in": expects a stream callback; "mid": being processed; "out"
          cur,      \* the stream event in work
          notin, avail, stopped
vars == <<l, b, pass, ks, got, done, owe, state, cur, notin, avail, stopped>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
W == Trace[b].want                  \* sequence of wanted types
WantedType(t) == \E k \in 1..Len(W) : W[k] = t
TypeOf(c) == CASE c = "an" -> "n" [] c = "aw" -> "w" [] c = "ar" -> "r" [] OTHER -> "-"
IsObj(c) == c \in {"n", "w", "r"}
Init == l = 1 /\ b = 0 /\ pass = 0 /\ ks = <<>> /\ got = <<>> /\ done = {} /\ owe = {} /\ state = "in" /\ cur = 0 /\ notin = FALSE /\ avail = {} /\ stopped = FALSE
Begin == /\ Is("begin") /\ pass \in {0, 3} /\ b' = l /\ pass' = 1 /\ ks' = <<>> /\ got' = <<>> /\ done' = {} /\ owe' = {} /\ state' = "in" /\ cur' = 0
         /\ notin' = FALSE /\ avail' = {} /\ stopped' = FALSE
Rel == /\ Is("rel") /\ pass = 1 /\ ks' = (IF Ev.kept THEN Append(ks, l) ELSE ks)
       /\ got' = (IF Ev.kept THEN Append(got, {}) ELSE got) /\ UNCHANGED <<b, pass, done, owe, state, cur, notin, avail, stopped>>
Pass2 == Is("pass2") /\ pass = 1 /\ pass' = 2 /\ UNCHANGED <<b, ks, got, done, owe, state, cur, notin, avail, stopped>>
(* below, relations are numbered 1..Len(ks) *)
K == 1..Len(ks)
Wants(i) == {p \in 1..Len(Trace[ks[i]].wants) : Trace[ks[i]].wants[p]}
HitsOf(i, o) == LET r == Trace[ks[i]] IN {p \in 1..Len(r.wants) : r.wants[p] /\ r.o.mem[p][1] = o.t /\ r.o.mem[p][2] = o.id}
Positions(g) == {h[1] : h \in g}
In == /\ Is("in") /\ pass = 2 /\ state = "in" /\ (stopped => Ev.c = "fin") /\ state' = "mid" /\ cur' = l
      /\ IF IsObj(Ev.c) /\ WantedType(Ev.c)
         THEN /\ got' = [i \in K |-> LET H == HitsOf(i, Ev.o) \ Positions(got[i])      \* the first version counts
                                     IN IF H = {} THEN got[i] ELSE got[i] \cup {<<p, l>> : p \in H}]
              /\ notin' = \A i \in K : HitsOf(i, Ev.o) = {}
              /\ owe' = {i \in K : got'[i] # got[i] /\ Positions(got'[i]) = Wants(i)}
         ELSE UNCHANGED got /\ notin' = FALSE /\ owe' = {}
      /\ UNCHANGED <<b, pass, ks, done, avail, stopped>>
Complete == /\ Is("complete") /\ state = "mid"
            /\ \E i \in owe :
                 /\ Trace[ks[i]].o = Ev.o /\ (\A j \in owe : Trace[ks[j]].o = Ev.o => i <= j)
                 /\ Len(Ev.members) = Len(Ev.o.mem)
                 /\ LET W1 == Wants(i)  G == got[i]
                    IN IF \A p \in 1..Len(Ev.members) :
                            IF p \in W1 THEN \E h \in G : h[1] = p /\ Trace[h[2]].o = Ev.members[p] ELSE Ev.members[p] = <<>>
                       THEN TRUE ELSE FALSE
                 /\ owe' = owe \ {i} /\ done' = done \cup {i}
            /\ UNCHANGED <<b, pass, ks, got, state, cur, notin, avail, stopped>>
NotIn == /\ Is("notin") /\ state = "mid" /\ notin /\ Ev.o = Trace[cur].o /\ notin' = FALSE
         /\ UNCHANGED <<b, pass, ks, got, done, owe, state, cur, avail, stopped>>
(* all wanted types are over: announced in the closing callback of the last, or at the end *)
Over == avail \cup {TypeOf(Trace[cur].c)}
AllOver == \A k \in 1..Len(W) : W[k] \in Over
(* relations that miss something, with what they have *)
LeftRight(e) == LET L == SelectSeq([i \in K |-> i], LAMBDA i : i \notin done /\ Wants(i) # {}) IN
    /\ Len(e.left) = Len(L)
    /\ IF \A k \in 1..Len(L) :
            /\ e.left[k].o = Trace[ks[L[k]]].o
            /\ Len(e.left[k].members) = Len(Trace[ks[L[k]]].wants)
            /\ LET G == got[L[k]] IN
               \A p \in 1..Len(e.left[k].members) :
                  IF p \in Positions(G)
                  THEN \E h \in G : h[1] = p /\ Trace[h[2]].o = e.left[k].members[p]
                  ELSE e.left[k].members[p] = <<>>
       THEN TRUE ELSE FALSE
Avail == /\ Is("avail") /\ state = "mid" /\ "all" \notin avail
         /\ (AllOver /\ TypeOf(Trace[cur].c) \in {W[k] : k \in 1..Len(W)}) \/ Trace[cur].c = "fin"
         /\ LeftRight(Ev) /\ (Trace[b].clean => Ev.n = Len(Ev.left))
         /\ avail' = avail \cup {"all"} /\ UNCHANGED <<b, pass, ks, got, done, owe, state, cur, notin, stopped>>
(* the nested handler gets the same callback afterwards *)
Cb == /\ Is("cb") /\ state = "mid" /\ owe = {} /\ ~notin /\ Ev.c = Trace[cur].c
      /\ (IsObj(Ev.c) => Ev.o = Trace[cur].o /\ Ev.et = Trace[cur].et)
      /\ (Ev.c = "init" => Ev.o = Trace[cur].o)
      /\ (Ev.c = "fin" /\ ~stopped => "all" \in avail)
      /\ (WantedType(TypeOf(Ev.c)) /\ AllOver => "all" \in avail)
      /\ avail' = avail \cup {TypeOf(Ev.c)}
      /\ state' = (IF Ev.c = "fin" THEN "out" ELSE "in") /\ UNCHANGED <<b, pass, ks, got, done, owe, cur, notin, stopped>>
Stop == Is("stop") /\ state = "in" /\ ~stopped /\ stopped' = TRUE /\ UNCHANGED <<b, pass, ks, got, done, owe, state, cur, notin, avail>>
Done == /\ Is("done") /\ state = "out" /\ LeftRight(Ev) /\ Ev.n = Len(Ev.left) /\ pass' = 3
        /\ UNCHANGED <<b, ks, got, done, owe, state, cur, notin, avail, stopped>>
Next == (Begin \/ Rel \/ Pass2 \/ In \/ Complete \/ NotIn \/ Avail \/ Cb \/ Stop \/ Done)
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
