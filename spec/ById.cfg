CONSTANTS
 MaxId = 4
 Vals = {1, 2}
 Inc = 2
 MaxOps = 5
 Fault = {}
SPECIFICATION Spec
INVARIANTS Latest Default
CHECK_DEADLOCK FALSE
