SPECIFICATION JSpec
INVARIANTS Explained
CHECK_DEADLOCK FALSE
