-------------------------------- MODULE ById --------------------------------
(* C14: the by-id stores as machines, against one map from id to latest value. *)
(*  grow  an array that grows by remapping (the mmap stores, sparse table)      *)
(*  vec   an ordered list of pairs searched by bisection; ids come ascending    *)
(*  map   a tree                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxId, Vals, Inc, MaxOps, Fault
VARIABLES m,                   \* abstract map, as a set of <<id, value>>
          kind, arr, cap, pairs, file, open, ops
vars == <<m, kind, arr, cap, pairs, file, open, ops>>
Dom == {p[1] : p \in m}
Get(id) == (CHOOSE p \in m : p[1] = id)[2]
Zeros(n) == [i \in 0..(n - 1) |-> 0]
Init == /\ m = {} /\ kind \in {"grow", "file", "vec"} /\ arr = Zeros(1) /\ cap = 1 /\ pairs = <<>> /\ file = Zeros(1) /\ open = TRUE /\ ops = 0
SetM(id, v) == m' = {p \in m : p[1] # id} \cup {<<id, v>>}
Grown(id) == id + Inc
SetArr(id, v) ==
    /\ kind \in {"grow", "file"} /\ open
    /\ LET n == IF id >= cap THEN Grown(id) ELSE cap
           old == IF id >= cap /\ "lose" \in Fault THEN Zeros(cap) ELSE arr
           a == [i \in 0..(n - 1) |-> IF i = id THEN v ELSE IF i < cap THEN old[i]
                                       ELSE IF kind = "file" /\ i \in DOMAIN file THEN file[i] ELSE 0]
       IN arr' = a /\ cap' = n /\ file' = (IF kind = "file" THEN a ELSE file)
    /\ SetM(id, v) /\ UNCHANGED <<kind, pairs, open>>
SetVec(id, v) ==
    /\ kind = "vec" /\ (pairs # <<>> => id >= pairs[Len(pairs)][1])
    /\ IF pairs # <<>> /\ pairs[Len(pairs)][1] = id /\ "append" \notin Fault
       THEN pairs' = [pairs EXCEPT ![Len(pairs)] = <<id, v>>]
       ELSE pairs' = Append(pairs, <<id, v>>)
    /\ SetM(id, v) /\ UNCHANGED <<kind, arr, cap, file, open>>
Close == kind = "file" /\ open /\ open' = FALSE /\ arr' = <<>> /\ cap' = 0 /\ UNCHANGED <<m, kind, pairs, file>>
Reopen == /\ kind = "file" /\ ~open /\ open' = TRUE
          /\ cap' = (IF "reopen1" \in Fault THEN 1 ELSE Cardinality(DOMAIN file)) /\ arr' = file /\ UNCHANGED <<m, kind, pairs, file>>
(* std::lower_bound: the first pair whose id is not less *)
Lower(id) == LET P == {i \in 1..Len(pairs) : pairs[i][1] >= id} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Look(id) == IF kind = "vec" THEN (IF Lower(id) = 0 \/ pairs[IF Lower(id) = 0 THEN 1 ELSE Lower(id)][1] # id THEN -1 ELSE pairs[Lower(id)][2])
            ELSE IF id < cap THEN arr[id] ELSE -2
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E id \in 0..MaxId, v \in Vals : SetArr(id, v) \/ SetVec(id, v)
           \/ Close \/ Reopen
Spec == Init /\ [][Next]_vars
Latest == open => \A id \in Dom : Look(id) = Get(id)
Default == kind = "vec" => \A id \in 0..MaxId : id \notin Dom => Look(id) = -1
=============================================================================
