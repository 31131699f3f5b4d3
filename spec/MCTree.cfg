SPECIFICATION Spec
CONSTANTS
  Fault = {}
  Depth = 3
  WithStop = TRUE
  Callbacks <- Cbs
INVARIANTS InOrder Complete StopHere
CHECK_DEADLOCK FALSE
