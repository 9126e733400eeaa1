SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Cls = "article"
 Kind = "refs"
 MaxLen = 6
 OutLen = 5
INVARIANTS CounterLaw NoRepeat ItemLaw RefLaw
