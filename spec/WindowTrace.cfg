SPECIFICATION Spec
INVARIANTS InWindow Online Bounded
CHECK_DEADLOCK FALSE
