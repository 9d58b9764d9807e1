SPECIFICATION Spec
INVARIANT TypeOk
PROPERTY OneGroup
CHECK_DEADLOCK FALSE
