SPECIFICATION TSpec
CONSTANT Depth = 1
CONSTANT Values = {0}
INVARIANT Sane
CHECK_DEADLOCK FALSE
