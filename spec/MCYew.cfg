SPECIFICATION Spec
CONSTANTS
  Size = 4
  Keys = {1, 2}
  Managers = {1, 2}
  Recording = {2}
INVARIANTS InNearest Shared Ships Agree Export
CHECK_DEADLOCK FALSE
