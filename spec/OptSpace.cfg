SPECIFICATION Spec
CONSTANTS Steps = 1
INVARIANTS Same Undone Export
CHECK_DEADLOCK FALSE
