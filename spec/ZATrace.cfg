SPECIFICATION Spec
VIEW View
INVARIANTS SameLocations SameLanguage SameLive RightVerdict
CHECK_DEADLOCK FALSE
