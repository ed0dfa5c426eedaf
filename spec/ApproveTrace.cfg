SPECIFICATION Spec
INVARIANT Report
CHECK_DEADLOCK FALSE
VIEW View
