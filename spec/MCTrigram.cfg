SPECIFICATION Spec
CONSTANTS N = 4 MaxLen = 7 Reset = FALSE
INVARIANT Correct
CHECK_DEADLOCK FALSE
