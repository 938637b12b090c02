SPECIFICATION Spec
INVARIANTS PublishedExact AccountedUnderLock Mutex BufferBounded FinalFile
PROPERTY Terminates
VIEW view
CHECK_DEADLOCK FALSE
