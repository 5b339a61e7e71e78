SPECIFICATION Spec
CONSTANTS NDocs = 4 NWorkers = 3 NShards = 2 First = 1 Serial = TRUE Wake = "all" Ordered = TRUE Acked = TRUE
INVARIANTS InOrder OneAtATime Complete NotBusyAtFlush
PROPERTIES Ends AllStop
CHECK_DEADLOCK FALSE
