SPECIFICATION Spec
CONSTANTS Depth = 12 OutLen = 4 Checksum = TRUE
VIEW View
INVARIANT RoundTrip
PROPERTIES SaveHeals Separate
CHECK_DEADLOCK FALSE
