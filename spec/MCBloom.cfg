SPECIFICATION Spec
CONSTANTS Sets = {1, 2} Values = {"u", "v"} Bits = {1, 2, 3} Skip = FALSE MaxOps = 6
INVARIANTS NoFalseNegative EmptyHasNothing
CHECK_DEADLOCK FALSE
