SPECIFICATION Spec
INVARIANTS CallWins ObjectElse EmaFollows NoMemory
PROPERTIES Stays
CHECK_DEADLOCK FALSE
