SPECIFICATION Spec
INVARIANTS FinalFile Emit
CHECK_DEADLOCK FALSE
