SPECIFICATION Spec
CONSTANTS D = 2 Depth = 2 None = 99
INVARIANTS Undone Gen
CHECK_DEADLOCK FALSE
