------------------------------ MODULE OsmjsOps ------------------------------
(* The command line of the osmjs program (C37): options in their order, the search  *)
(* for include files, and the errors that end the program before it does anything.  *)
EXTENDS Integers, Sequences
Stores == {"none", "array", "disk", "sparsetable", "vector"}
Start == [exit |-> -1, debug |-> FALSE, store |-> "none", two |-> FALSE, mp |-> FALSE, repair |-> TRUE, main |-> 0, incs |-> <<>>]
(* a file name is a sequence of characters; without a suffix it gets one *)
Suffix(n) == \E i \in 1..Len(n) : n[i] = "." /\ \A j \in i..Len(n) : n[j] # "/"
Full(n) == IF Suffix(n) THEN n ELSE n \o <<".", "j", "s">>
Dirs == <<"/", ".", "js", "home">>
RECURSIVE FindIn(_, _, _)
FindIn(tree, n, d) ==
    IF d > Len(Dirs) THEN 0
    ELSE LET c == {i \in 1..Len(tree) : tree[i].dir = Dirs[d] /\ tree[i].name = n} IN
         IF c # {} THEN tree[CHOOSE i \in c : TRUE].k ELSE FindIn(tree, n, d + 1)
Find(tree, n) == FindIn(tree, Full(n), 1)
(* one option: [o |-> letter, a |-> argument]; for i the argument is a name, for j the number of the file (0: an empty name) *)
Option(r, o, tree) ==
    IF r.exit # -1 THEN r
    ELSE CASE o.o = "d" -> [r EXCEPT !.debug = TRUE]
           [] o.o = "h" -> [r EXCEPT !.exit = 0]
           [] o.o = "r" -> [r EXCEPT !.repair = FALSE]
           [] o.o = "2" -> [r EXCEPT !.two = TRUE]
           [] o.o = "m" -> [r EXCEPT !.two = TRUE, !.mp = TRUE]
           [] o.o = "l" -> IF o.a \in Stores THEN [r EXCEPT !.store = o.a] ELSE [r EXCEPT !.exit = 1]
           [] o.o = "j" -> [r EXCEPT !.main = o.a]
           [] o.o = "i" -> LET k == Find(tree, o.a) IN IF k = 0 THEN [r EXCEPT !.exit = 1] ELSE [r EXCEPT !.incs = Append(@, k)]
           [] OTHER -> [r EXCEPT !.exit = 1]
RECURSIVE Options(_, _, _)
Options(r, s, tree) == IF s = <<>> THEN r ELSE Options(Option(r, Head(s), tree), Tail(s), tree)
(* pos: "none", "stdin", "file" *)
Checked(r, pos) == IF r.exit # -1 THEN r
                   ELSE IF r.main = 0 \/ pos = "none" \/ (r.two /\ (pos = "stdin" \/ r.store = "none")) THEN [r EXCEPT !.exit = 1]
                   ELSE r
Command(s, tree, pos) == Checked(Options(Start, s, tree), pos)
(* loading: the includes in their order, then the script; the first that can not be run ends the program *)
(* (an included file may be empty, the script may not)                                                     *)
RECURSIVE Loading(_, _)
Loading(ks, bad) ==      \* bad[k] = "": fine; "throws": starts and fails; "empty": nothing in it; anything else: does not start
    IF ks = <<>> THEN [log |-> <<>>, ok |-> TRUE]
    ELSE LET k == Head(ks) w == IF k = -1 THEN "missing" ELSE bad[k] IN
         IF w = "empty" /\ Len(ks) > 1 THEN Loading(Tail(ks), bad)
         ELSE IF w = "" THEN LET rest == Loading(Tail(ks), bad) IN [log |-> <<k>> \o rest.log, ok |-> rest.ok]
         ELSE [log |-> IF w = "throws" THEN <<k>> ELSE <<>>, ok |-> FALSE]
Loads(r, bad) == Loading(r.incs \o <<r.main>>, bad)
=============================================================================
