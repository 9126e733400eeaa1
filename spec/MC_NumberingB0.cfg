SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Cls = "book"
 Kind = "numbers"
 MaxLen = 4
 OutLen = 3
INVARIANTS CounterLaw NoRepeat ItemLaw RefLaw
