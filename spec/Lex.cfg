SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY Progress
CHECK_DEADLOCK FALSE
