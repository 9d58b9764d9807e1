SPECIFICATION GSpec
CONSTANT Depth = 5
CONSTANT Sizes = {1, 4084, 8180}
CONSTANT Slots = 3
INVARIANT Disjoint NotBoth GReport
CHECK_DEADLOCK FALSE
