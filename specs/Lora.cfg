SPECIFICATION Spec
INVARIANT NamesDistinct
INVARIANT OnePerWeight
INVARIANT OnlyWhole
INVARIANT NothingForZero
INVARIANT RankOne
CHECK_DEADLOCK FALSE
