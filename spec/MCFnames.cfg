SPECIFICATION Spec
CONSTANTS Names = {"a", "b"} MaxLen = 3 MaxAdds = 3 MaxReads = 2 Rebuilt = TRUE
INVARIANTS Identity OneNode NodeCount Parents
CHECK_DEADLOCK FALSE
