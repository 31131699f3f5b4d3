------------------------------- MODULE JsOps --------------------------------
(* What running the files of a script leaves behind. A file is a sequence of        *)
(* operations: set a callback, unset it (anything that is no function), include      *)
(* another file. The result is which function each callback has, and the order in    *)
(* which files were started.                                                         *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Callbacks == {"init", "before_nodes", "node", "after_nodes", "before_ways", "way", "after_ways",
              "before_relations", "relation", "after_relations", "area", "end"}
None == [env |-> [c \in Callbacks |-> ""], log |-> <<>>]
RECURSIVE Ops(_, _, _, _), File(_, _, _), Files(_, _, _)
Ops(files, ops, k, st) ==
    IF k > Len(ops) THEN st
    ELSE LET o == ops[k] IN
         Ops(files, ops, k + 1,
             CASE o.op = "set"   -> [st EXCEPT !.env[o.cb] = o.fn]
               [] o.op = "unset" -> [st EXCEPT !.env[o.cb] = ""]
               [] o.op = "inc"   -> File(files, o.k, st))
File(files, k, st) == Ops(files, files[k], 1, [st EXCEPT !.log = Append(@, k)])
Files(files, order, st) == IF order = <<>> THEN st ELSE Files(files, Tail(order), File(files, Head(order), st))
=============================================================================
