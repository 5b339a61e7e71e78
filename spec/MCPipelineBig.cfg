SPECIFICATION Spec
CONSTANTS NDocs = 6 NWorkers = 4 NShards = 3 First = 3 Serial = TRUE Wake = "all" Ordered = TRUE Acked = TRUE
INVARIANTS InOrder OneAtATime Complete NotBusyAtFlush
CHECK_DEADLOCK FALSE
