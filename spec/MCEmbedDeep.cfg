SPECIFICATION Spec
CONSTANTS Kinds = {"lin", "fourier", "gauss", "pos"} Counts = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17} Widths = {1, 2, 3, 4, 7} Bases = {0, 1, 2} MaxRed = 2 RedTo = {1, 2, 3, 6} Entries = 7 MaxVals = 0
INVARIANTS LinOk FourierOk GaussOk PosOk ReduceOk DerivOk
CHECK_DEADLOCK FALSE
