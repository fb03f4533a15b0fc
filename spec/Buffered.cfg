SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 4}
 MaxBatch = 2
INVARIANTS ExactlyOnce InOrder NoSkip MinimalCalls
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
