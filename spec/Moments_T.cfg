SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Same Range Laws Instants Fields
CHECK_DEADLOCK FALSE
