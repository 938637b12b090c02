SPECIFICATION Spec
INVARIANTS HandedExact NeverSilent WindowBounded
PROPERTY Terminates
VIEW view
CHECK_DEADLOCK FALSE
