SPECIFICATION Spec
CONSTANTS
  Cap = 20
  ShpHead = 4
  DbfHead = 3
  FieldHead = 2
  Shapes = {2, 5, 7}
  Widths = {1, 3}
  MaxShapes = 6
  MaxFields = 2
  Fault = {}
INVARIANT Limit
INVARIANT Kept
INVARIANT SameFields
INVARIANT NotEarly
CHECK_DEADLOCK FALSE
