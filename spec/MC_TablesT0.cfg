SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "table"
 MaxLen = 7
 OutLen = 5
INVARIANTS InOrder Formats Items Widths Counts
