SPECIFICATION Spec
CONSTANT Wide = TRUE
INVARIANT Agree
CHECK_DEADLOCK FALSE
