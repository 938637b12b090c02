SPECIFICATION Spec
INVARIANTS KeyByKey ComponentsPartition FallbackUnion CanonicalFirst SubAdd
CHECK_DEADLOCK FALSE
