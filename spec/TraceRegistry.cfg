SPECIFICATION Spec
VIEW View
INVARIANTS Accepted IdsUnique RegistrySound LogExact
CHECK_DEADLOCK FALSE
