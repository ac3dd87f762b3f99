SPECIFICATION Spec
CONSTANT MaxLayers = 3
INVARIANTS TypeOK Export
CHECK_DEADLOCK FALSE
