SPECIFICATION Spec
CONSTANTS Sessions = {a, b, c, d, e} MaxGen = 3 MaxData = 2 CfgUnderLock = TRUE AppendExcl = TRUE FailReleases = TRUE CloseReleases = TRUE RemoveHolds = TRUE
INVARIANTS Excludes Undisturbed NoLeak
PROPERTIES ReadsCommitted FailChangesNothing Grows
SYMMETRY Sym
CHECK_DEADLOCK FALSE
