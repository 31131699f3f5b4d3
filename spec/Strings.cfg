SPECIFICATION Spec
CONSTANTS
  Fault = {}
  Strs = {"a", "b", "c"}
  MaxRec = 6
INVARIANTS Ids Stored Fresh
CHECK_DEADLOCK FALSE
