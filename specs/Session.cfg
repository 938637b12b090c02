SPECIFICATION Spec
INVARIANTS Determined Forgotten Current
CHECK_DEADLOCK FALSE
