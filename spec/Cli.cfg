SPECIFICATION Spec
INVARIANTS CleanFailure NoFalseSuccess Documented
PROPERTY Ends
CHECK_DEADLOCK FALSE
