SPECIFICATION Spec
CONSTANTS T = 64 Gaps = {1, 3, 8, 21, 30} Slopes = {1, 5, 16, 40, 64} MinW = 0 MinH = 0 MaxBins = 5 Step = 1000 Modes = {"build"}
INVARIANTS GenSpline
CHECK_DEADLOCK FALSE
