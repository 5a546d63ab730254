SPECIFICATION Spec
INVARIANT TwoParts
VIEW View
CHECK_DEADLOCK FALSE
