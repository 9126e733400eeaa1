CONSTANTS MaxReq = 3
Big = TRUE
SPECIFICATION Spec
INVARIANTS Distinct NotReserved Clean
PROPERTIES Reset NumOnly NoFresh
CHECK_DEADLOCK FALSE
