SPECIFICATION Spec
CONSTANTS Dims = {1} Weights = {0, 1, 2, 5} Centres = {0, 2, 4} Diags = {1, 2} Offs = {1} MaxComp = 3
INVARIANTS SameDensity Normalised Bounded Factored
CHECK_DEADLOCK FALSE
