SPECIFICATION Spec
CONSTANTS
  Size = 5
  Keys = {1}
  Managers = {1, 2, 3}
  Recording = {2, 3}
INVARIANTS InNearest Shared Ships Agree Export
CHECK_DEADLOCK FALSE
