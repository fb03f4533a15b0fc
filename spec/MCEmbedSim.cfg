SPECIFICATION GSpec
CONSTANTS Kinds = {"lin", "fourier", "gauss", "pos"} Counts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 14, 17} Widths = {1, 2, 3, 4, 7} Bases = {0, 1, 2} MaxRed = 2 RedTo = {1, 2, 3, 5, 8} Entries = 7 MaxVals = 12
INVARIANTS Gen
CHECK_DEADLOCK FALSE
