SPECIFICATION Spec
CONSTANTS
  MaxObjs = 5
  BlockMax = 2
  Ids = {1, 2, 5}
  Strs = {"", "a"}
  Reset = {"delta", "strings"}
INVARIANTS RoundTrip PrefixAlways BlockSizes OneKindPerGroup TableDistinct SidsResolve
CHECK_DEADLOCK FALSE
