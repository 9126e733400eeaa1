SPECIFICATION Spec
CONSTANTS Pool = "B"
 Depth = 2
 Wide = 2
INVARIANTS TreeInv ViewInv NormInv CloneInv
CHECK_DEADLOCK FALSE
