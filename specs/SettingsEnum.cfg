SPECIFICATION Spec
INVARIANTS Inv Idempotent Commute Repeat
CHECK_DEADLOCK FALSE
