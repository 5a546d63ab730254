SPECIFICATION Spec
INVARIANTS InTime Once All Order Forgotten
VIEW View
CHECK_DEADLOCK FALSE
