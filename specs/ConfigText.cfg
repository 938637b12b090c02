SPECIFICATION Spec
INVARIANTS RoundTrip SameText DefaultsLeftOut IdentifierParts
CHECK_DEADLOCK FALSE
