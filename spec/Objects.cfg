SPECIFICATION Spec
CONSTANTS
  Fault = {}
  Slots = {1, 2}
  Attrs = {"id", "user"}
  MaxLen = 1
  MaxAddr = 8
INVARIANTS Values
CHECK_DEADLOCK FALSE
