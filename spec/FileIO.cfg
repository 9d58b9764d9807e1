SPECIFICATION TSpec
CONSTANT Depth = 1
INVARIANT PosOk
CHECK_DEADLOCK FALSE
