SPECIFICATION Spec
VIEW View
INVARIANTS RegistrySound
CHECK_DEADLOCK FALSE
