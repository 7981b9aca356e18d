SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT Kept
INVARIANT Composable
INVARIANT Nestable
CHECK_DEADLOCK FALSE
