SPECIFICATION Spec
CONSTANT Depth = 14
INVARIANTS Proper Told
CHECK_DEADLOCK FALSE
