SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxLen = 7
 OutLen = 6
 StrLen = 6
INVARIANTS Once Where Substituted Nested
