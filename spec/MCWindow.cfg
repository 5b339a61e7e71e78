SPECIFICATION Spec
CONSTANTS KS = {1, 2, 3} MS = {1, 2} V = {0, 1, 2, 3} MaxLen = 7 Xors = TRUE
INVARIANTS LastK Forgets
CHECK_DEADLOCK FALSE
