CONSTANTS
  Threads = {"p", "q", "r"}
  Texts = {"a", "b", "x"}
  Bad = {"x"}
  MaxCalls = 4
SPECIFICATION Spec
INVARIANTS Pure CacheSound LockHeld NoLostCall
CHECK_DEADLOCK FALSE
