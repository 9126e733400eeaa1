SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxDocs = 3 MaxActs = 3 MaxTotal = 4 OutActs = 2
INVARIANTS Alone Restored
