SPECIFICATION Spec
CONSTANTS MaxLen = 2 Seeds = {1} Sizes <- MCSizes
INVARIANTS ActionInvariant Image StaysInGroup
CHECK_DEADLOCK FALSE
