SPECIFICATION GSpec
CONSTANT Progs = {1, 2, 3}
CONSTANT Extra = 3
INVARIANT Sound
CHECK_DEADLOCK FALSE
