SPECIFICATION TSpec
CONSTANT Files = 1
INVARIANT Report Bounded OneFile
CHECK_DEADLOCK FALSE
