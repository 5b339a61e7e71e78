SPECIFICATION Spec
CONSTANTS NSh = 2 K = 3 MaxLen = 4 Caps = {0, 1, 2, 3} MaxBatch = 3 Design = "code"
INVARIANTS Refines EndsRight
PROPERTY Progress
CHECK_DEADLOCK FALSE
