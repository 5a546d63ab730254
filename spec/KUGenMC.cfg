SPECIFICATION Spec
INVARIANT Between
VIEW View
CHECK_DEADLOCK FALSE
