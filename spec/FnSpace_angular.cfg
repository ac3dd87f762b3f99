SPECIFICATION Spec
CONSTANT Family = "angular"
INVARIANTS Complete Export
CHECK_DEADLOCK FALSE
