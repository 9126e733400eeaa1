SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Cls = "article"
 Kind = "lists"
 MaxLen = 7
 OutLen = 6
INVARIANTS CounterLaw NoRepeat ItemLaw RefLaw
