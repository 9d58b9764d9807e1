SPECIFICATION Spec
CONSTANT Depth = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
