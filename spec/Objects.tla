------------------------------- MODULE Objects ------------------------------
(* C28: objects as values. Abstractly every slot holds a value. Concretely an     *)
(* object is a record of attributes and the addresses of its lists, and copying   *)
(* allocates new lists. Concrete and abstract view must agree after any history.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Attrs, MaxLen, MaxAddr, Fault
VARIABLES abs, con, heap, next
vars == <<abs, con, heap, next>>
Lists == {"tags", "nodes"}
Seqs == UNION {[1..k -> {1, 2}] : k \in 0..MaxLen}
Blank == [a |-> [x \in Attrs |-> 0], l |-> [x \in Lists |-> <<>>]]
Init == /\ abs = [s \in Slots |-> Blank]
        /\ LET addr == CHOOSE f \in [Slots \X Lists -> 1..(2 * Cardinality(Slots))] : \A p, q \in Slots \X Lists : f[p] = f[q] => p = q IN
           con = [s \in Slots |-> [a |-> [x \in Attrs |-> 0], l |-> [x \in Lists |-> addr[<<s, x>>]]]]
        /\ heap = [i \in 1..(2 * Cardinality(Slots)) |-> <<>>] /\ next = 2 * Cardinality(Slots) + 1
Value(s) == [a |-> con[s].a, l |-> [x \in Lists |-> heap[con[s].l[x]]]]
Set(s, x, v) ==
    /\ abs' = [abs EXCEPT ![s].a[x] = v]
    /\ con' = [con EXCEPT ![s].a = [y \in Attrs |-> IF y = x \/ "both" \in Fault THEN v ELSE @[y]]]
    /\ UNCHANGED <<heap, next>>
Append1(s, x, v) ==
    /\ Len(abs[s].l[x]) < MaxLen
    /\ abs' = [abs EXCEPT ![s].l[x] = Append(@, v)]
    /\ heap' = [heap EXCEPT ![con[s].l[x]] = IF "front" \in Fault THEN <<v>> \o @ ELSE Append(@, v)]
    /\ UNCHANGED <<con, next>>
Refused(s, x) ==    \* an over-long text: nothing changes
    /\ heap' = IF "half" \in Fault /\ Len(heap[con[s].l[x]]) < MaxLen THEN [heap EXCEPT ![con[s].l[x]] = Append(@, 1)] ELSE heap
    /\ UNCHANGED <<abs, con, next>>
Clear(s, x) == /\ abs' = [abs EXCEPT ![s].l[x] = <<>>] /\ heap' = [heap EXCEPT ![con[s].l[x]] = <<>>] /\ UNCHANGED <<con, next>>
Copy(s, t) == LET sh == "shallow" \in Fault IN
    /\ s # t /\ next + 1 <= MaxAddr
    /\ abs' = [abs EXCEPT ![s] = abs[t]]
    /\ con' = [con EXCEPT ![s] = [a |-> IF "lost" \in Fault THEN [con[t].a EXCEPT ![CHOOSE x \in Attrs : TRUE] = 0] ELSE con[t].a,
                                  l |-> [tags |-> IF sh THEN con[t].l["tags"] ELSE next, nodes |-> next + 1]]]
    /\ heap' = heap @@ (next :> heap[con[t].l["tags"]]) @@ (next + 1 :> heap[con[t].l["nodes"]])
    /\ next' = next + 2
Next == \/ \E s \in Slots, x \in Attrs, v \in {0, 1} : Set(s, x, v)
        \/ \E s \in Slots, x \in Lists, v \in {1, 2} : Append1(s, x, v)
        \/ \E s \in Slots, x \in Lists : Clear(s, x) \/ Refused(s, x)
        \/ \E s, t \in Slots : Copy(s, t)
Spec == Init /\ [][Next]_vars
Values == \A s \in Slots : Value(s) = abs[s]
=============================================================================
