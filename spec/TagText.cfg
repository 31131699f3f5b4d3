SPECIFICATION Spec
CONSTANTS
  Fault = {}
  Chars = {34, 92, 44}
  MaxLen = 2
  MaxTags = 1
INVARIANTS Readable
CHECK_DEADLOCK FALSE
