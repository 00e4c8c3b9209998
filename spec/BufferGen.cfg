SPECIFICATION Spec
VIEW View
INVARIANT Sane
PROPERTY Monotone
CHECK_DEADLOCK FALSE
