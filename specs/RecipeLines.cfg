SPECIFICATION Spec
INVARIANTS RoundTrip Idempotent NoRepetition BackwardRefs AllUsed FirstErrorDecides
CHECK_DEADLOCK FALSE
