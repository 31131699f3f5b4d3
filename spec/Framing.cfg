CONSTANTS
 MaxBlobs = 3
 SizeLen = 4
 HdrLen = 2
 DataLen = 3
 Fault = {}
SPECIFICATION Spec
INVARIANTS NotSilent NoFalseAlarm Genuine Released
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
