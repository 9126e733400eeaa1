SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxDocs = 2 MaxActs = 2 MaxTotal = 4 OutActs = 2
INVARIANTS Alone Restored
