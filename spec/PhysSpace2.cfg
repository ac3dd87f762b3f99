SPECIFICATION Spec
CONSTANT MaxLayers = 2
INVARIANTS TypeOK Export
CHECK_DEADLOCK FALSE
