SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 3
 Wide = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
