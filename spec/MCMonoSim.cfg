SPECIFICATION Spec
CONSTANTS T = 64 Gaps = {0, 1, 4, 11, 20} Slopes = {2, 3, 8, 16, 31, 64} MinW = 2 MinH = 1 MaxBins = 7 Step = 1000 Modes = {"build"}
INVARIANTS GenSpline
CHECK_DEADLOCK FALSE
