SPECIFICATION Spec
INVARIANTS Sound Restores
CONSTANT Random = TRUE
CHECK_DEADLOCK FALSE
