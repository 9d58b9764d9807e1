SPECIFICATION Spec
CONSTANT Depth = 8
INVARIANT Emit
CHECK_DEADLOCK FALSE
