SPECIFICATION Spec
INVARIANTS ShortestMatch EndLetters LetterSkips RunSkips Progress
CHECK_DEADLOCK FALSE
