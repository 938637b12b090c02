SPECIFICATION Spec
INVARIANTS ErrorSurfaces NormalIfNone StoredExactlyOnce NeverTwice NothingAfterEnd NothingAlive Retention
PROPERTY Terminates
VIEW view
CHECK_DEADLOCK FALSE
