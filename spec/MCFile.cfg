CONSTANTS
 Slots = {1, 2, 3}
 Kinds = {"inplain", "ingz", "inbad", "missing", "outplain", "outgz"}
 MaxOps = 6
 Gen = FALSE
 Extras = TRUE
 Fault = {}
SPECIFICATION Spec
INVARIANTS OwnsExactly NoSharing KidsOwned OnlyLive ChildHasFd
VIEW View
CHECK_DEADLOCK FALSE
