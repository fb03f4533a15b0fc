SPECIFICATION Spec
CONSTANTS Sizes0 <- Sizes MaxLen = 2 WithTrans = TRUE
INVARIANTS ActionsInvariant CorrelatorsMoveAlong TensorForms ConnectedVanishes Gen
CHECK_DEADLOCK FALSE
