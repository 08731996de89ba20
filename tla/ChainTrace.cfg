SPECIFICATION Spec
VIEW View
INVARIANTS Conservation Linked
CHECK_DEADLOCK FALSE
