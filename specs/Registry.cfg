SPECIFICATION Spec
INVARIANTS OncePerIdentifier ResolvesWhatWasRegistered FirstStays PrivateUnknown
PROPERTY NeverForgotten
CHECK_DEADLOCK FALSE
