CONSTANTS
 Words = {"a", "osm", "osh", "osc", "pbf", "gz", "bz2", ".", "/", ":", "http", "https", "-"}
 MaxLen = 4
 Gen = TRUE
SPECIFICATION Spec

CHECK_DEADLOCK FALSE
