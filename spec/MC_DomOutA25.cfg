SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 5
 Wide = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
