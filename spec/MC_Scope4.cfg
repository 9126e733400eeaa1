CONSTANT N = 4
CONSTANT Wide = TRUE
SPECIFICATION Spec
INVARIANT Refines
PROPERTY Restores
CHECK_DEADLOCK FALSE
