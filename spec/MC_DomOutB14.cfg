SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 4
 Wide = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
