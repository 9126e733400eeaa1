SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 5
 Wide = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
