CONSTANT Depth = 4
SPECIFICATION Spec
INVARIANTS OneValue OneValueGrouped InRange Total1 NoDead Summary
CHECK_DEADLOCK FALSE
