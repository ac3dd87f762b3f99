SPECIFICATION Spec
CONSTANTS Steps = 2
INVARIANTS Same Undone Export
CHECK_DEADLOCK FALSE
