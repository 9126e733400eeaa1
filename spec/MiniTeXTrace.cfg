SPECIFICATION Spec
PROPERTY Confined
CHECK_DEADLOCK FALSE
