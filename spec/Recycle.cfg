SPECIFICATION Spec
CONSTANTS
  Fields = {"a", "b"}
  Values = {0, 1}
  MaxLen = 4
  MaxRefs = 5
INVARIANTS KeptUnchanged NoLeak OwnStorage
CHECK_DEADLOCK FALSE
