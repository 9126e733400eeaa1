SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Alphabet = {92, 123, 94, 0, 32, 10, 97, 64, 37, 126}
  Recat <- RecatDef
INVARIANTS TypeOK OneSpacePerRun CatOK
PROPERTIES Terminates Progress
CHECK_DEADLOCK FALSE
