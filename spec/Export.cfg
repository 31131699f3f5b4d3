SPECIFICATION Spec
CONSTANTS
 MaxSt = 6
 MaxObjs = 1
 Fault = {}
INVARIANTS Complete InOrder Own Ids Refused
CHECK_DEADLOCK FALSE
