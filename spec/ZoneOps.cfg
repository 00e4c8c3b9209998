SPECIFICATION Spec
INVARIANTS SameSet Verdict Tight Equal Guard
PROPERTY Abstraction
CHECK_DEADLOCK FALSE
