SPECIFICATION GSpec
CONSTANTS NSh = 3 K = 2 MaxLen = 4 Caps = {0, 1, 2, 3} MaxBatch = 2 Design = "code"
INVARIANTS Emit Refines
CHECK_DEADLOCK FALSE
