CONSTANT N = 3
CONSTANT Wide = TRUE
SPECIFICATION Spec
INVARIANT Refines
PROPERTY Restores
CHECK_DEADLOCK FALSE
