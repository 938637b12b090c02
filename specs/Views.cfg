SPECIFICATION Spec
INVARIANTS MachineGivesValues NeededAreSeen EveryMergeAlike SeenInPrograms
CHECK_DEADLOCK FALSE
