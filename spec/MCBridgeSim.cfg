SPECIFICATION GSpec
CONSTANTS Goals = {1, 2, 3, 4, 5, 6, 7} MaxTok = 7 Sizes = {1, 2, 3}
INVARIANTS Gen
CHECK_DEADLOCK FALSE
