SPECIFICATION GSpec
CONSTANTS MaxRank = 3 MaxSize = 12 MaxOps = 14 MaxPeel = 2 Short = FALSE
INVARIANTS Gen
CHECK_DEADLOCK FALSE
