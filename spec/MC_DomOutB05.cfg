SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 5
 Wide = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
