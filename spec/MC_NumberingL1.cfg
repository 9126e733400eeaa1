SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Cls = "article"
 Kind = "lists"
 MaxLen = 9
 OutLen = 7
INVARIANTS CounterLaw NoRepeat ItemLaw RefLaw
