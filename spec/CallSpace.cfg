SPECIFICATION Spec
CONSTANTS MaxL = 3  MaxP = 3  MaxK = 3
INVARIANTS ReadAsMeant MistakesRefused Export
CHECK_DEADLOCK FALSE
