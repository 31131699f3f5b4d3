CONSTANTS
 Features = {"OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"}
 MaxLen = 4
 Gen = FALSE
 Fault = {}
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
