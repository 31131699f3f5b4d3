SPECIFICATION Spec
CONSTANTS
  MaxSteps = 1
  Fault = {}
  Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
