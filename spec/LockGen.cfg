SPECIFICATION GSpec
CONSTANTS Sessions = {"s1", "s2", "s3", "s4"} MaxGen = 20 MaxData = 20 CfgUnderLock = TRUE AppendExcl = TRUE FailReleases = TRUE CloseReleases = TRUE RemoveHolds = TRUE Length = 26
INVARIANT Emit
CHECK_DEADLOCK FALSE
