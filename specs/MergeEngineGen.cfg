SPECIFICATION Spec
INVARIANTS ErrorSurfaces Retention Emit
CHECK_DEADLOCK FALSE
