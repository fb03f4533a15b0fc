CONSTANTS MaxLen = 4
          Trees <- MCTrees
SPECIFICATION Spec
INVARIANTS ReadsBack BumpIsRepresentationFree Constants Gen
CHECK_DEADLOCK FALSE
