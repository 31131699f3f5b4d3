CONSTANTS
 Poss = {1, 2}
 Negs = {1}
 Vers = {1, 2}
 Types = {"n", "w", "r"}
 MaxOps = 3
 MaxStream = 1
 Fault = {}
SPECIFICATION Spec
INVARIANTS FeedRight Empty Bracketed MergeRight
CHECK_DEADLOCK FALSE
