SPECIFICATION Spec
INVARIANTS NeverSilent Justified Emit
CHECK_DEADLOCK FALSE
