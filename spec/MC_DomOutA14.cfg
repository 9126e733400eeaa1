SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 4
 Wide = 1
INVARIANTS Emit
CHECK_DEADLOCK FALSE
