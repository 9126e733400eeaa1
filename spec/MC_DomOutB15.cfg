SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 5
 Wide = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
