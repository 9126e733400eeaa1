SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 2
 Wide = 2
INVARIANTS TreeInv ViewInv NormInv CloneInv
CHECK_DEADLOCK FALSE
