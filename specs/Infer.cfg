SPECIFICATION Spec
INVARIANT Explicit
INVARIANT AtLeastATenth
INVARIANT NoneMatchesMore
INVARIANT DemandWins
INVARIANT AskedIsNeverAdHoc
INVARIANT AllHaveIt
INVARIANT AllAdHocOrNone
CHECK_DEADLOCK FALSE
