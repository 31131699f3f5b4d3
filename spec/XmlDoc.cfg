CONSTANTS
 MaxObjs = 3
 MaxToks = 11
 Kinds = {"n", "w"}
 Fault = {}
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS ReadsBack Prefix WellFormed Sections ReaderEnds
CHECK_DEADLOCK FALSE
