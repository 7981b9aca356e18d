CONSTANT Big = 2
SPECIFICATION Spec
INVARIANTS Means NoEmpty Keyframes0 Scoped Closed
CHECK_DEADLOCK FALSE
