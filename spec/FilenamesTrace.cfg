SPECIFICATION Spec
PROPERTY NeverShrinks
CHECK_DEADLOCK FALSE
