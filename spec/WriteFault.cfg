CONSTANTS
 N = 5
 Piped = FALSE
 Fault = {}
SPECIFICATION Spec
INVARIANTS CompleteOrReported NeverWrong
CHECK_DEADLOCK FALSE
