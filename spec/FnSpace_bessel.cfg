SPECIFICATION Spec
CONSTANT Family = "bessel"
INVARIANTS Complete Export
CHECK_DEADLOCK FALSE
