CONSTANT N = 3
INIT Init
NEXT Next
INVARIANT Sound
CHECK_DEADLOCK FALSE
