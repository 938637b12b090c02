SPECIFICATION Spec
INVARIANTS InputsKept SameForAll
CHECK_DEADLOCK FALSE
