SPECIFICATION Spec
CONSTANTS
 MaxOpts = 3
 MaxObjs = 3
 Fault = {}
INVARIANTS RightExit RightLoads Once Positions AreasRight NoGuess
CHECK_DEADLOCK FALSE
