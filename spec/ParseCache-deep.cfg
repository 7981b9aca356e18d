CONSTANTS
  Threads = {"p", "q", "r"}
  Texts = {"a", "b", "x"}
  Bad = {"x"}
  MaxCalls = 6
SPECIFICATION Spec
INVARIANTS Pure CacheSound LockHeld NoLostCall
CHECK_DEADLOCK FALSE
