CONSTANTS
 NRel = 2
 MaxMem = 2
 Refs = {1, 2}
 Types = {"n", "w"}
 Fault = {}
SPECIFICATION Spec
INVARIANTS HandedOnce RightSlots NotIn Announced
CHECK_DEADLOCK FALSE
