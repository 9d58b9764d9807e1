SPECIFICATION GSpec
CONSTANT Depth = 5
INVARIANT PosOk GReport
CHECK_DEADLOCK FALSE
