SPECIFICATION Spec
INVARIANTS SameLanguage Syntax Maxima
CHECK_DEADLOCK FALSE
