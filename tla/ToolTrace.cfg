SPECIFICATION Spec
VIEW View
INVARIANTS Conservation Apart
CHECK_DEADLOCK FALSE
