SPECIFICATION Spec
CONSTANTS Modes = {"history", "density"} Keys = {1, 2} Shapes = {1, 2, 3} Seeds = {1, 2} MaxCalls = 5
INVARIANTS Deterministic FreshDraws Replays Whitens Scores
CHECK_DEADLOCK FALSE
