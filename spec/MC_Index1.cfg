SPECIFICATION Spec
CONSTANTS N = 4
 WEAK = FALSE
 COLS = 4
INVARIANT BuildOK
INVARIANT Once
INVARIANT Noticed
CHECK_DEADLOCK FALSE
