SPECIFICATION Spec
INVARIANTS Bounded StagedIsNotWritten WindowAtMostShare
CHECK_DEADLOCK FALSE
