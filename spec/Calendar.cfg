SPECIFICATION Spec
CONSTANTS
  Fault = {}
  FirstYear = 1599
  LastYear = 2401
INVARIANTS There Back
CHECK_DEADLOCK FALSE
