SPECIFICATION TSpec
CONSTANT Depth = 1
CONSTANT Sizes = {1}
CONSTANT Slots = 16
INVARIANT Disjoint NotBoth
CHECK_DEADLOCK FALSE
