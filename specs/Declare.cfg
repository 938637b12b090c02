SPECIFICATION Spec
INVARIANTS AcceptedResolves UnregisteredUnknown ConvertersAreMethods ConvertersCanConvert DeterminedResult ReachIsTransitive
PROPERTIES RejectedChangesNothing
CHECK_DEADLOCK FALSE
