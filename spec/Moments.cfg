SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Same Range Laws Instants Fields
CHECK_DEADLOCK FALSE
