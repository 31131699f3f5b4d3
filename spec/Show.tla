-------------------------------- MODULE Show --------------------------------
(* Design of the two handlers that show something (C33, C35): a stream of       *)
(* callbacks, the dump's flag for object versions and the display's counters.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxObjs, Fault
VARIABLES step, tty, flag0, flagm,    \* configuration: step, terminal, the flag given to the dump and the one in the meta data
          ph, stream,                 \* callbacks so far, by type
          versions, dump,             \* the dump's flag; for each object whether versions were shown
          cnt, shown, cursor          \* counters, lines shown, cursor visible
vars == <<step, tty, flag0, flagm, ph, stream, versions, dump, cnt, shown, cursor>>
T == {"n", "w", "r"}
Init == /\ step \in 1..3 /\ tty \in BOOLEAN /\ flag0 \in BOOLEAN /\ flagm \in BOOLEAN
        /\ ph = "new" /\ stream = <<>> /\ versions = flag0 /\ dump = <<>>
        /\ cnt = [t \in T |-> 0] /\ shown = <<>> /\ cursor = TRUE
Cfg == UNCHANGED <<step, tty, flag0, flagm>>
Start == /\ ph = "new" /\ ph' = "run"
         /\ versions' = IF "overwrite" \in Fault THEN flagm ELSE (versions \/ flagm)
         /\ shown' = IF tty THEN Append(shown, cnt) ELSE shown
         /\ cursor' = ~tty /\ UNCHANGED <<stream, dump, cnt>> /\ Cfg
Obj(t) == /\ ph = "run" /\ Len(stream) < MaxObjs
          /\ stream' = Append(stream, t) /\ dump' = Append(dump, versions)
          /\ LET c == [cnt EXCEPT ![t] = @ + 1] IN
             /\ cnt' = IF tty \/ "count" \in Fault THEN c ELSE cnt
             /\ shown' = IF tty /\ (IF "total" \in Fault THEN Len(stream') ELSE c[t]) % step = 0
                         THEN Append(shown, IF "late" \in Fault THEN cnt ELSE c) ELSE shown
          /\ UNCHANGED <<ph, versions, cursor>> /\ Cfg
Final == /\ ph = "run" /\ ph' = "done"
         /\ shown' = IF tty THEN Append(shown, cnt) ELSE shown
         /\ cursor' = IF tty /\ "hidden" \in Fault THEN cursor ELSE TRUE
         /\ UNCHANGED <<stream, versions, dump, cnt>> /\ Cfg
Next == Start \/ (\E t \in T : Obj(t)) \/ Final
Spec == Init /\ [][Next]_vars
Of(s, t) == Len(SelectSeq(s, LAMBDA x : x = t))
Steps(t) == Of(stream, t) \div step
Lines == ph = "done" => Len(shown) = IF tty THEN 2 + Steps("n") + Steps("w") + Steps("r") ELSE 0
Right == \A k \in 1..Len(shown) : \/ k = 1 /\ shown[k] = [t \in T |-> 0]
                                  \/ k > 1 /\ \E t \in T, p \in 0..Len(stream) : \A u \in T : shown[k][u] = Of(SubSeq(stream, 1, p), u)
Exact == \A k \in 2..Len(shown) : \/ (ph = "done" /\ k = Len(shown) /\ \A u \in T : shown[k][u] = Of(stream, u))
                                  \/ \E p \in 1..Len(stream) : /\ \A u \in T : shown[k][u] = Of(SubSeq(stream, 1, p), u)
                                                               /\ Of(SubSeq(stream, 1, p), stream[p]) % step = 0
Versions == \A k \in 1..Len(dump) : dump[k] = (flag0 \/ flagm)
Cursor == ph # "run" => cursor
=============================================================================
