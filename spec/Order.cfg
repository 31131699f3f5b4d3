CONSTANTS
 MaxId = 2
 MaxVer = 2
 MaxCoord = 1
 MaxLen = 3
 Fault = {}
SPECIFICATION Spec
INVARIANTS Irreflexive Transitive Total Holds ByMagnitude
CHECK_DEADLOCK FALSE
