SPECIFICATION Spec
CONSTANTS T = 8 Gaps = {0, 1, 3} Slopes = {1, 16, 50} MinW = 1 MinH = 1 MaxBins = 3 Step = 1 Modes = {"family", "build"}
INVARIANTS Ordered InRange SplineRises SplineInterpolates SplineKeepsInterval SplineMirrors Gen
CHECK_DEADLOCK FALSE
