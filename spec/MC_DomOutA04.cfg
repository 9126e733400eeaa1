SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 4
 Wide = 0
INVARIANTS Emit
CHECK_DEADLOCK FALSE
