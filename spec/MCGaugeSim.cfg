SPECIFICATION Spec
CONSTANTS MaxLen = 6 Seeds = {1} Sizes <- MCSizes
INVARIANTS ActionInvariant Image StaysInGroup Gen
CHECK_DEADLOCK FALSE
