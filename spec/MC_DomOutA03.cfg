SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 3
 Wide = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
