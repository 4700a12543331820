INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS PIExact MCSExact Cover Coherent Positive Shannon
CHECK_DEADLOCK FALSE
