SPECIFICATION Spec
CONSTANTS MaxRank = 3 MaxSize = 6 MaxOps = 3 MaxPeel = 1 Short = TRUE
INVARIANTS Full Indexing Slicewise SameAxes NestedPeel Pieces Undo
PROPERTIES Pure
CHECK_DEADLOCK FALSE
