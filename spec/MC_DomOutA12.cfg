SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 2
 Wide = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
