SPECIFICATION Spec
VIEW View
INVARIANTS Sound Kept Obeyed
CHECK_DEADLOCK FALSE
