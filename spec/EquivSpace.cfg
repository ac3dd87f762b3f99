SPECIFICATION Spec
CONSTANTS MaxLayers = 4  Ranks = 5  Mats = 2
INVARIANTS SameSphere Increasing Export
CHECK_DEADLOCK FALSE
