SPECIFICATION Spec
INVARIANT Decide
CHECK_DEADLOCK FALSE
