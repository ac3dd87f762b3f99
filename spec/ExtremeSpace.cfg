SPECIFICATION Spec
INVARIANTS Legal Export
CHECK_DEADLOCK FALSE
