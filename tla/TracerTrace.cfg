SPECIFICATION Spec
VIEW View
INVARIANTS Conservation
CHECK_DEADLOCK FALSE
