SPECIFICATION Spec
INVARIANTS AcceptedIffAcceptable EveryArgumentUsedOnce EverySlotFilled
CHECK_DEADLOCK FALSE
