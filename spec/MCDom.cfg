CONSTANTS
  MaxLen = 6
  Boxes = {"head", "shadow"}
  Appends = {TRUE, FALSE}
  Sheets = {"a:b;", "c:d;"}
  Record = FALSE
  Handles = {"h1", "h2"}
  Faults = {0, 1}
  MaxOther = 1
SPECIFICATION Spec
VIEW View
INVARIANTS RegistrySound InDocument ServerElements
PROPERTIES LeavesOthers EntersAtEdge FailsCleanly
CHECK_DEADLOCK FALSE
