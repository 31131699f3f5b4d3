SPECIFICATION Spec
CONSTANTS
  MaxObjs = 5
  Fault = {}
INVARIANTS Lines Right Exact Versions Cursor
CHECK_DEADLOCK FALSE
