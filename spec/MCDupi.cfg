SPECIFICATION MCSpec
CONSTANTS
  Roots = {"r1", "r2"}
  WH = {"w"}
  RH = {"a"}
  QH = {"q"}
  MaxDocs = 2
  MaxWords = 2
  MaxSess = 3
  KS = {1}
  NS = {1, 2}
  NWords = 2
  H <- HV
  None = None
INVARIANTS Exclusion AllIndexesOk EnumOk
PROPERTIES Snapshot Prefixed
CHECK_DEADLOCK FALSE
