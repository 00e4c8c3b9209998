SPECIFICATION Spec
INVARIANTS IsTime NotEmpty Ordered
CHECK_DEADLOCK FALSE
