SPECIFICATION Spec
CONSTANTS Dims = {1, 2, 3} Weights = {0, 1, 2, 3, 5} Centres = {0, 2, 4, 8} Diags = {1, 2} Offs = {0, 1, 2} MaxComp = 4
INVARIANTS Gen
CHECK_DEADLOCK FALSE
