SPECIFICATION Spec
CONSTANTS Shapes0 <- MCShapes MaxLen = 3
INVARIANTS IndependentModesCountOnce Hermitian Gen
CHECK_DEADLOCK FALSE
