CONSTANTS
 Features = {"OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"}
 MaxLen = 4
 Gen = TRUE
 Fault = {}
SPECIFICATION Spec
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
