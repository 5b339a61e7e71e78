SPECIFICATION Spec
CONSTANTS Sessions = {a, b, c} MaxGen = 2 MaxData = 1 CfgUnderLock = TRUE AppendExcl = TRUE FailReleases = TRUE CloseReleases = TRUE RemoveHolds = TRUE
INVARIANTS Excludes Undisturbed NoLeak
PROPERTIES ReadsCommitted FailChangesNothing Grows
SYMMETRY Sym
CHECK_DEADLOCK FALSE
