SPECIFICATION Spec
CONSTANTS Modes = {"history"} Keys = {1, 2} Shapes = {1, 2, 3, 4} Seeds = {1, 2} MaxCalls = 8
INVARIANTS Gen
CHECK_DEADLOCK FALSE
