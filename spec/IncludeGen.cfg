SPECIFICATION GSpec
CONSTANT Files = 4
INVARIANT GReport
CHECK_DEADLOCK FALSE
