CONSTANTS Emit = TRUE MaxOut = 1200
SPECIFICATION Spec
INVARIANTS TypeOK Report
CHECK_DEADLOCK FALSE
