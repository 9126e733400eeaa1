SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 2
 Wide = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
