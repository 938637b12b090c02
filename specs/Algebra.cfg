SPECIFICATION Spec
INVARIANTS OfShape Between Interpolates Inverse WithinBounds UntouchedWithin MaskRange StrictOnly RegionSize RegionWhole RegionConnected OneSign Alone TopKept LargestFirst NothingDropped AllDropped Orthogonal StockAgrees TurnEnds
CHECK_DEADLOCK FALSE
