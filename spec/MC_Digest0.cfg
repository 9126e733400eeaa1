SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 6
 OutLen = 5
 StrLen = 6
INVARIANTS Once Where Substituted Nested
