SPECIFICATION Spec
CONSTANTS Max = 3  Steps = 3
INVARIANTS Closed Export
CHECK_DEADLOCK FALSE
