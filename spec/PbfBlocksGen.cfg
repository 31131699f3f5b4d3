CONSTANTS
 Ids = {1, 2, 3, 4, 5}
 Vals = {0, 2, 4, 6, 8}
 Strs = {"a", "b", "c"}
 Grans = {1, 2}
 Offs = {0, 2, 4}
 MaxObj = 6
 MaxBlocks = 4
 MaxGroups = 3
 Fault = {}
 Gen = TRUE
SPECIFICATION Spec
INVARIANTS GenDone
CHECK_DEADLOCK FALSE
