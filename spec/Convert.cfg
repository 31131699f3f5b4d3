SPECIFICATION Spec
CONSTANTS
  MaxSteps = 2
  Fault = {}
  Gen = FALSE
INVARIANTS Same InOrder Meaning
CHECK_DEADLOCK FALSE
