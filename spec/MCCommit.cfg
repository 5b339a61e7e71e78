SPECIFICATION Spec
CONSTANTS Paths = {"a", "b"} Shards = {1, 2} Rate = 2 MaxDocs = 3 MaxSess = 3 Design = "code"
INVARIANTS Kept Whole NotSilent Listed
CHECK_DEADLOCK FALSE
