SPECIFICATION HSpec
INVARIANTS EmitUse
CHECK_DEADLOCK FALSE
