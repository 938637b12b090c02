SPECIFICATION Spec
INVARIANTS SearchOrder OpenedOnce ErrorsWriteNothing InputsStay AllOrError OutputPlace Closed
CHECK_DEADLOCK FALSE
