SPECIFICATION Spec
CONSTANT H = 3
INVARIANTS Pure Export
CHECK_DEADLOCK FALSE
