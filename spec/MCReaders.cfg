SPECIFICATION Spec
CONSTANTS Readers = {a, b} Records = 3 Chains = 2 Positional = TRUE
INVARIANT AsAlone
PROPERTY Finishes
CHECK_DEADLOCK FALSE
