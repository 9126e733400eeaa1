SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 4
 Wide = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
