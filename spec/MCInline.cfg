SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT Kept
INVARIANT Composable
INVARIANT Nestable
CHECK_DEADLOCK FALSE
