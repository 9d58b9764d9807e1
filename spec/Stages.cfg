SPECIFICATION TSpec
CONSTANT Progs = {1}
CONSTANT Extra = 0
CHECK_DEADLOCK FALSE
