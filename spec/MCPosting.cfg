SPECIFICATION Spec
CONSTANTS Slots = {1, 2} F = 2 MaxDoc = 4 MaxSess = 3 Bounded = TRUE
INVARIANTS TypeOk ReadsCommitted Appendable Ascending DeadMeansUnused
CHECK_DEADLOCK FALSE
