SPECIFICATION Spec
CONSTANTS N = 2 MaxG = 2 AllOps = TRUE
INVARIANT OneRoot
CHECK_DEADLOCK FALSE
