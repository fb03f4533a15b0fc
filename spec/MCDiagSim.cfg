SPECIFICATION GSpec
CONSTANTS Ms = {0, 1, 1, 2, 3, 5} Ks = {0, 0, 1, 2, 3, 100, 1000, 60} Logs = {0, 1, 3, 7, 40, 1000} Norms = {0, 3, 17, 400, 4000, 40000} Vals = {0} Wins = {1} MaxN = 24 MaxX = 0 MaxOps = 12
INVARIANTS Gen
CHECK_DEADLOCK FALSE
