SPECIFICATION Spec
CONSTANTS
  Conversions = {"sd1"}
  MaxDropped = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
