SPECIFICATION Spec
INVARIANTS Sound Restores
CONSTANT Random = FALSE
CHECK_DEADLOCK FALSE
