SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 2
 Wide = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
