SPECIFICATION Spec
CONSTANTS Handles = {h1, h2, h3} Paths = {"p", "q"}
INVARIANT Exclusive
PROPERTY Served
CHECK_DEADLOCK FALSE
