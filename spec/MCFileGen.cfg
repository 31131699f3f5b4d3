CONSTANTS
 Slots = {1, 2, 3}
 Kinds = {"inplain", "ingz", "inbad", "missing", "outplain", "outgz", "outfail"}
 MaxOps = 6
 Gen = TRUE
 Extras = TRUE
 Fault = {}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
