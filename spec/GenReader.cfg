SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Kinds = {"all"}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
