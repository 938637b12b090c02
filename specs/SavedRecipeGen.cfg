SPECIFICATION SSpec
INVARIANTS SEmit
CHECK_DEADLOCK FALSE
