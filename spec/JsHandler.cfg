SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxCalls = 3
  Fault = {}
INVARIANTS Loaded Same
CHECK_DEADLOCK FALSE
