CONSTANTS
 MaxObjs = 3
 MaxToks = 11
 Kinds = {"n", "w"}
 Fault = {}
 Gen = TRUE
SPECIFICATION Spec
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
