SPECIFICATION Spec
VIEW View
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
