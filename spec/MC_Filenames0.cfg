CONSTANTS MaxReq = 2
Big = FALSE
SPECIFICATION Spec
INVARIANTS Distinct NotReserved Clean
PROPERTIES Reset NumOnly NoFresh
CHECK_DEADLOCK FALSE
