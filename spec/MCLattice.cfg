SPECIFICATION Spec
CONSTANTS Sizes0 <- MCSizes MaxLen = 3 WithTrans = TRUE
INVARIANTS Bijective KeepsNeighbours InverseUndoes Composes Gen
CHECK_DEADLOCK FALSE
