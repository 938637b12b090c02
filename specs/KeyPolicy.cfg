SPECIFICATION Spec
INVARIANTS ByDefaultOnlyConfigKeys ExtraKept EmaAsAsked RecipeWins CopiedUnchanged StoredOnce RejectedForAReason
CHECK_DEADLOCK FALSE
