SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 4
 Wide = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
