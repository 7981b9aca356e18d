CONSTANTS
  MaxLen = 6
  Lanes = {0, 1}
  Sheets = {"a:b;", "c:d;"}
  Kinds = {FALSE, TRUE}
  Prefixes = {"(unset)", "p", ""}
  Record = FALSE
  WithData = FALSE
  Handles = {"h1", "h2", "h3"}
SPECIFICATION Spec
VIEW View
INVARIANTS IdsUnique RegistrySound LogExact
PROPERTIES StableAlways Isolation Forgets
CHECK_DEADLOCK FALSE
