----------------------------- MODULE PbfBlocks ------------------------------
(* C13: the published PBF encoding as a nondeterministic encoder (every legal  *)
(* choice of blocks, groups, units, offsets, string indexes, dense or plain)   *)
(* and a decoder that must get back the objects whatever was chosen.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ids, Vals, Strs, Grans, Offs, MaxObj, MaxBlocks, MaxGroups, Fault, Gen
VARIABLES file,   \* sequence of blocks [g, off, strings, groups]; group [kind, items]
          objs    \* what was encoded, in order
vars == <<file, objs>>
Init == file = <<>> /\ objs = <<>>
Last(s) == s[Len(s)]
Put(s, x) == [s EXCEPT ![Len(s)] = x]
Groups == IF file = <<>> THEN <<>> ELSE Last(file).groups
NewBlock(g, off) == /\ Len(file) < MaxBlocks /\ (file # <<>> => Groups # <<>> /\ Last(Groups).items # <<>>)
                    /\ file' = Append(file, [g |-> g, off |-> off, strings |-> <<"">>, groups |-> <<>>])
                    /\ UNCHANGED objs
NewGroup(k) == /\ file # <<>> /\ Len(Groups) < MaxGroups /\ (Groups # <<>> => Last(Groups).items # <<>>)
               /\ file' = Put(file, [Last(file) EXCEPT !.groups = Append(@, [kind |-> k, items |-> <<>>])])
               /\ UNCHANGED objs
RECURSIVE Sum(_, _)
Sum(items, f) == IF items = <<>> THEN 0 ELSE Head(items)[f] + Sum(Tail(items), f)
(* dense groups hold differences; a string is any entry with the right text, or a new entry *)
Add(id, val, str, dup) ==
    /\ file # <<>> /\ Groups # <<>> /\ Len(objs) < MaxObj
    /\ LET b == Last(file)
           gr == Last(b.groups)
           found == {i \in 1..Len(b.strings) : b.strings[i] = str}
           new == found = {} \/ dup
           strings == IF new THEN Append(b.strings, str) ELSE b.strings
           raw == (val - b.off) \div b.g
       IN /\ (val - b.off) % b.g = 0
          /\ \E si \in (IF new THEN {Len(strings)} ELSE found) :
                LET base(f) == IF gr.kind = "d" THEN Sum(gr.items, f) ELSE 0
                    item == [id |-> id - base("id"), raw |-> raw - base("raw"), sid |-> (si - 1) - base("sid")]
                IN file' = Put(file, [b EXCEPT !.strings = strings,
                                               !.groups = Put(b.groups, [gr EXCEPT !.items = Append(@, item)])])
          /\ objs' = Append(objs, [id |-> id, val |-> val, str |-> str])
Next == \/ \E g \in Grans, o \in Offs : NewBlock(g, o)
        \/ \E k \in {"d", "n"} : NewGroup(k)
        \/ \E i \in Ids, v \in Vals, s \in Strs, d \in BOOLEAN : Add(i, v, s, d)
(* the decoder: a machine over blocks, groups and items with explicit state *)
RECURSIVE Items(_, _, _, _)
Items(b, kind, items, a) ==
    IF items = <<>> THEN <<>>
    ELSE LET x == Head(items)
             n == IF kind = "d" THEN [id |-> a.id + x.id, raw |-> a.raw + x.raw, sid |-> a.sid + x.sid] ELSE x
         IN <<[id |-> n.id, val |-> b.off + b.g * n.raw, str |-> IF n.sid + 1 \in DOMAIN b.strings THEN b.strings[n.sid + 1] ELSE "?"]>>
            \o Items(b, kind, Tail(items), n)
Z == [id |-> 0, raw |-> 0, sid |-> 0]
LastOf(gr) == [id |-> Sum(gr.items, "id"), raw |-> Sum(gr.items, "raw"), sid |-> Sum(gr.items, "sid")]
RECURSIVE Grps(_, _, _)
Grps(b, gs, a) == IF gs = <<>> THEN <<>> ELSE Items(b, Head(gs).kind, Head(gs).items, a)
                     \o Grps(b, Tail(gs), IF "stickydelta" \in Fault THEN LastOf(Head(gs)) ELSE Z)
RECURSIVE Decode(_)
Decode(f) == IF f = <<>> THEN <<>>
             ELSE LET b == Head(f)
                      u == IF "stickyunits" \in Fault THEN [b EXCEPT !.g = file[1].g] ELSE
                           IF "nooffset" \in Fault THEN [b EXCEPT !.off = 0] ELSE
                           IF "stickystrings" \in Fault THEN [b EXCEPT !.strings = file[1].strings] ELSE b
                  IN Grps(u, b.groups, Z) \o Decode(Tail(f))
Right == Decode(file) = objs
GenDone == Gen /\ Len(objs) = MaxObj => PrintT("GEN " \o ToJson([f |-> [i \in 1..Len(file) |-> [g |-> file[i].g, off |-> file[i].off, dups |-> Len(file[i].strings) - Cardinality({file[i].strings[j] : j \in 1..Len(file[i].strings)}), groups |-> [j \in 1..Len(file[i].groups) |-> [k |-> file[i].groups[j].kind, n |-> Len(file[i].groups[j].items)]]]], o |-> objs]))
Spec == Init /\ [][Next]_vars
=============================================================================
