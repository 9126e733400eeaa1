SPECIFICATION Spec
CONSTANTS MaxS = 5 MaxN = 3 OutS = 4 OutN = 3
INVARIANTS Frame RoundTrip Suffix Minus
CHECK_DEADLOCK FALSE
