SPECIFICATION Spec
CONSTANT Tolerance = 60
INVARIANTS Complete Rule Published InMarch
CHECK_DEADLOCK FALSE
