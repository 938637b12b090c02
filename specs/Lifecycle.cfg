SPECIFICATION Spec
INVARIANTS NothingKept OutputOutlivesWorkers InputsOutliveAll FaultsShow Works
PROPERTIES Ends
CHECK_DEADLOCK FALSE
