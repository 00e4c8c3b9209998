SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
