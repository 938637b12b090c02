SPECIFICATION Spec
INVARIANTS NeverSilent Justified
PROPERTY Terminates
CHECK_DEADLOCK FALSE
