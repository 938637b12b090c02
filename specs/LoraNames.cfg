SPECIFICATION Spec
INVARIANT NamesDistinct
INVARIANT OnePerWeight
INVARIANT OnlyWhole
INVARIANT NothingForZero
INVARIANT RankOne
INVARIANT EmitNames
CHECK_DEADLOCK FALSE
