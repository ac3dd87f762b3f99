SPECIFICATION Spec
CONSTANTS Max = 3  Steps = 2
INVARIANTS Closed Export
CHECK_DEADLOCK FALSE
