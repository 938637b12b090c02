SPECIFICATION Spec
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
