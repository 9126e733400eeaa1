SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "table"
 MaxLen = 9
 OutLen = 6
INVARIANTS InOrder Formats Items Widths Counts
