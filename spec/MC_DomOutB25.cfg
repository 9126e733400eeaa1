SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 5
 Wide = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
