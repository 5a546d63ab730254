SPECIFICATION Spec
INVARIANTS Fits Left Nothing NeverStuck Probed
VIEW View
CHECK_DEADLOCK FALSE
