SPECIFICATION Spec
CONSTANTS MaxRank = 3 MaxSize = 8 MaxOps = 4 MaxPeel = 2 Short = TRUE
INVARIANTS Full Indexing Slicewise SameAxes NestedPeel Pieces Undo
PROPERTIES Pure
CHECK_DEADLOCK FALSE
