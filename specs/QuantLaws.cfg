INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS Definition Complement Bounded Ordering Importance Contributions
CHECK_DEADLOCK FALSE
