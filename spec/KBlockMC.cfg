SPECIFICATION Spec
INVARIANT Within
VIEW View
CHECK_DEADLOCK FALSE
