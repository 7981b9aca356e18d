CONSTANTS
  Slots = {1, 2, 3}
  Keys = {1, 2}
  Managers = {1, 2}
  MaxLen = 4
  Record = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS ScopedOnce GlobalWhileMounted
CHECK_DEADLOCK FALSE
