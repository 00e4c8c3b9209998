SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
