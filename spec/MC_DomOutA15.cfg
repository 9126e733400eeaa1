SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 5
 Wide = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
