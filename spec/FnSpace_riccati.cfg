SPECIFICATION Spec
CONSTANT Family = "riccati"
INVARIANTS Complete Export
CHECK_DEADLOCK FALSE
