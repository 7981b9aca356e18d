CONSTANT Big = 0
SPECIFICATION Spec
INVARIANTS Means NoEmpty Keyframes0 Scoped Closed
CHECK_DEADLOCK FALSE
