SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "nest"
 MaxLen = 9
 OutLen = 7
INVARIANTS InOrder Formats Items Widths Counts
