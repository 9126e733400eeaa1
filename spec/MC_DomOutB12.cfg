SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 2
 Wide = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
