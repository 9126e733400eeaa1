SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 4
 Wide = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
