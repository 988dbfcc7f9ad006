CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Same Unique Show
CHECK_DEADLOCK FALSE
