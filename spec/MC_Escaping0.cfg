SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Alphabet = {60, 62, 38, 59, 35, 34, 108, 116, 33, 45, 47, 233} MaxLen = 4 OutLen = 3
INVARIANTS Element Titled Attribute HighElement HighAscii HighAttribute Marked
