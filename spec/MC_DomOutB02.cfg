SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 2
 Wide = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
