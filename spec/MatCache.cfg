SPECIFICATION Spec
CONSTANTS W = 3
 H = 3
INVARIANTS Transparent Export
CHECK_DEADLOCK FALSE
