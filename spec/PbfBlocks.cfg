CONSTANTS
 Ids = {1, 5}
 Vals = {0, 2, 4}
 Strs = {"a", "b"}
 Grans = {1, 2}
 Offs = {0, 2}
 MaxObj = 3
 MaxBlocks = 2
 MaxGroups = 2
 Fault = {}
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
