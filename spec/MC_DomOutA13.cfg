SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 3
 Wide = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
