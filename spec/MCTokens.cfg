SPECIFICATION Spec
CONSTANTS Units <- UnitSet MaxLen = 6 LastFlushed = TRUE
INVARIANTS Correct SameDefinition
CHECK_DEADLOCK FALSE
