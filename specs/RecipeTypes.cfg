SPECIFICATION Spec
INVARIANTS UniqueSpace UniqueConfig DemandsMet NeverMixed OpeningOnlyRejects MoreInformationNeverAccepts
CHECK_DEADLOCK FALSE
