SPECIFICATION Spec
CONSTANTS
  N = 5
  Fault = {}
INVARIANT Right
CHECK_DEADLOCK FALSE
