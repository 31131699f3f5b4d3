SPECIFICATION Spec
CONSTANTS
  Fault = {}
  Coords = {11, 12, 13}
  MaxLen = 4
INVARIANTS Faithful Refusal
CHECK_DEADLOCK FALSE
