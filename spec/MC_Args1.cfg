SPECIFICATION Spec
CONSTANTS MaxS = 6 MaxN = 4 OutS = 5 OutN = 3
INVARIANTS Frame RoundTrip Suffix Minus
CHECK_DEADLOCK FALSE
