SPECIFICATION Spec
CONSTANTS T = 16 Gaps = {0, 1, 2, 4, 9} Slopes = {1, 4, 16, 64} MinW = 1 MinH = 1 MaxBins = 3 Step = 1 Modes = {"family", "build"}
INVARIANTS Ordered InRange SplineRises SplineInterpolates SplineKeepsInterval SplineMirrors
CHECK_DEADLOCK FALSE
