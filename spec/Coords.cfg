CONSTANTS
 Max = 2
 Poss = {1, 2}
 MaxOps = 4
 WayLen = 2
 Fault = {}
SPECIFICATION Spec
INVARIANTS Exact Lookup
CHECK_DEADLOCK FALSE
