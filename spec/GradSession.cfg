SPECIFICATION Spec
CONSTANTS H = 5
 Q = 2
INVARIANTS Accumulates Export
CHECK_DEADLOCK FALSE
