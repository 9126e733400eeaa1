SPECIFICATION Spec
CONSTANTS Depth = 6 OutLen = 3 Checksum = TRUE
VIEW View
INVARIANT RoundTrip
PROPERTIES SaveHeals Separate
CHECK_DEADLOCK FALSE
