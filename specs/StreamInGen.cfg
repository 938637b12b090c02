SPECIFICATION Spec
INVARIANTS HandedExact NeverSilent Emit
CHECK_DEADLOCK FALSE
