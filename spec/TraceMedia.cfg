SPECIFICATION Spec
VIEW View
INVARIANTS Allowed
CHECK_DEADLOCK FALSE
