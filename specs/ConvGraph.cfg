SPECIFICATION Spec
INVARIANTS Shortest Nothing Monotone Bounded
PROPERTY Terminates
CHECK_DEADLOCK FALSE
