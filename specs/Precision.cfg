SPECIFICATION Spec
INVARIANTS Requests Stored OnDevice Untouched
CHECK_DEADLOCK FALSE
