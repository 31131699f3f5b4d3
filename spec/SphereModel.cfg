SPECIFICATION Spec
CONSTANTS
  H = 12
  Step = 3
  MaxLen = 3
  Fault = {}
INVARIANTS Agree Detour Backwards
CHECK_DEADLOCK FALSE
