SPECIFICATION Spec
CONSTANTS NSh = 2 K = 3 MaxLen = 3 Caps = {0, 1, 2} MaxBatch = 2 Design = "code"
INVARIANTS Refines EndsRight
PROPERTY Progress
CHECK_DEADLOCK FALSE
