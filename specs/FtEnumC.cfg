SPECIFICATION Spec
CONSTANTS N = 2 MaxG = 4 AllOps = FALSE
INVARIANT OneRoot
CHECK_DEADLOCK FALSE
