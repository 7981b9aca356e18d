CONSTANTS
  MaxLen = 8
  Queries = {"(a)", "(b)"}
  Slots = {1, 2}
  Refresh = TRUE
  Record = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Shows Listens Allowed
CHECK_DEADLOCK FALSE
