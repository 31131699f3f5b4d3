SPECIFICATION Spec
CONSTANTS
  Fault = {}
  Coords = {1, 2, 3}
  U = 9
  MaxLen = 4
INVARIANTS Tight
CHECK_DEADLOCK FALSE
