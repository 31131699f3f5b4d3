SPECIFICATION Spec
CONSTANTS
  Fault = {}
  MaxObj = 4
  Ids = {1, 2}
  Times = {1, 2, 3, 4}
  From = 3
  To = 3
INVARIANTS NothingWrong AllDelivered Snapshot
CHECK_DEADLOCK FALSE
