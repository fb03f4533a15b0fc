SPECIFICATION Spec
CONSTANTS Kinds = {"lin", "fourier", "gauss", "pos"} Counts = {1, 2, 3, 4, 5, 6, 9} Widths = {1, 2, 4} Bases = {0, 1, 2} MaxRed = 1 RedTo = {1, 3} Entries = 7 MaxVals = 0
INVARIANTS LinOk FourierOk GaussOk PosOk ReduceOk DerivOk
CHECK_DEADLOCK FALSE
