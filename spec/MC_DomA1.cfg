SPECIFICATION Spec
CONSTANTS Pool = "A"
 Depth = 1
 Wide = 2
INVARIANTS TreeInv ViewInv NormInv CloneInv
CHECK_DEADLOCK FALSE
