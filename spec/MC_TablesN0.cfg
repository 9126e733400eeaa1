SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "nest"
 MaxLen = 8
 OutLen = 6
INVARIANTS InOrder Formats Items Widths Counts
