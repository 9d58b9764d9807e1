CONSTANTS Emit = TRUE
SPECIFICATION Spec
INVARIANTS Report NoStuck
CHECK_DEADLOCK FALSE
