SPECIFICATION Spec
CONSTANTS
  NodeSet = {1, 2, 3}
  MaxWays = 4
  Fault = {}
INVARIANT Closed
INVARIANT Once
INVARIANT Complete
INVARIANT NoFiller
CHECK_DEADLOCK FALSE
