SPECIFICATION Spec
CONSTANTS Sessions = {a, b} MaxGen = 2 MaxData = 1 CfgUnderLock = TRUE AppendExcl = TRUE FailReleases = TRUE CloseReleases = TRUE RemoveHolds = TRUE
PROPERTIES Proceeds NeverStuck
CHECK_DEADLOCK FALSE
