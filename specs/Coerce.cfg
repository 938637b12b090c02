SPECIFICATION Spec
INVARIANTS Broadcast OwnEntry DeclaredTypeUnchanged DeclaredTypeDelivered StringsNeverConverted
CHECK_DEADLOCK FALSE
