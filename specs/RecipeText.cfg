SPECIFICATION Spec
INVARIANTS StringsRoundTrip NothingInvented OneLine UnbalancedRejected
CHECK_DEADLOCK FALSE
