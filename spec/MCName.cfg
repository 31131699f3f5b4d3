CONSTANTS
 Words = {"a", "osm", "osh", "osc", "pbf", "gz", "bz2", ".", "/", ":", "http", "https", "-"}
 MaxLen = 4
 Gen = FALSE
SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
