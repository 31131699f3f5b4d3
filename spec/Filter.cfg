SPECIFICATION Spec
CONSTANTS
  Fault = {}
  Keys = {1, 2}
  Values = {1, 2}
  MaxRules = 3
  MaxTags = 2
INVARIANTS Visited
CHECK_DEADLOCK FALSE
