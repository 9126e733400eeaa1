SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Cls = "book"
 Kind = "numbers"
 MaxLen = 5
 OutLen = 4
INVARIANTS CounterLaw NoRepeat ItemLaw RefLaw
