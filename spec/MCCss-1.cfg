CONSTANT Big = 1
SPECIFICATION Spec
INVARIANTS Means NoEmpty Keyframes0 Scoped Closed
CHECK_DEADLOCK FALSE
