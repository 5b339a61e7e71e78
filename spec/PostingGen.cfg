SPECIFICATION GSpec
CONSTANTS Slots = {1, 2} F = 6 MaxDoc = 14 MaxSess = 4 Bounded = TRUE
INVARIANTS Emit ReadsCommitted
CHECK_DEADLOCK FALSE
