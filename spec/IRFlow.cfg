SPECIFICATION Spec
INVARIANTS Report
VIEW View
CHECK_DEADLOCK FALSE
