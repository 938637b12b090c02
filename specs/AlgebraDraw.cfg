SPECIFICATION Spec
INVARIANTS Draw
CHECK_DEADLOCK FALSE
