SPECIFICATION GSpec
CONSTANT Depth = 4
CONSTANT Values <- GV
INVARIANT Sane GReport
CHECK_DEADLOCK FALSE
