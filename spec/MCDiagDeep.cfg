SPECIFICATION Spec
CONSTANTS Ms = {0, 1, 3} Ks = {0, 1} Logs = {3, 4} Norms = {0, 5} Vals = {0, 1, 5} Wins = {1, 2, 3, 4} MaxN = 4 MaxX = 5 MaxOps = 6
INVARIANTS EssBounds EssExtremes WindowOk WindowShort WindowLength Side
PROPERTIES EssStable DklMoves DklTwice
CHECK_DEADLOCK FALSE
