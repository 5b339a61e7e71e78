SPECIFICATION Spec
CONSTANTS Rates = {1, 2, 3} Recs = {"a", "b"} MaxDocs = 6 MaxSess = 4 Design = "code"
INVARIANTS Numbering Found NumDocs Buffered
CHECK_DEADLOCK FALSE
