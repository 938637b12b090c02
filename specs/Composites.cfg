SPECIFICATION HSpec
INVARIANTS NothingAdded ClampedBetween Moves SeenFrom Sums OnlyDropped SameModels Steps
CHECK_DEADLOCK FALSE
