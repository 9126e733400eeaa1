SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 2
 Wide = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
