SPECIFICATION Spec
CONSTANTS
  Conversions = {"sd1"}
  MaxDropped = 0
INVARIANT FedOnce
INVARIANT Fits
INVARIANT Complete
INVARIANT Backbone
INVARIANT OnlyTheRestIsMissing
INVARIANT Emit
CHECK_DEADLOCK FALSE
