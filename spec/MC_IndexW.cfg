SPECIFICATION Spec
CONSTANTS N = 3
 WEAK = TRUE
 COLS = 4
INVARIANT BuildOK
INVARIANT Once
INVARIANT Noticed
CHECK_DEADLOCK FALSE
