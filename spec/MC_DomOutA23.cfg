SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 3
 Wide = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
