SPECIFICATION Spec
CONSTANTS Dims = {1, 2} Weights = {0, 1, 2} Centres = {0, 2} Diags = {1, 2} Offs = {1} MaxComp = 2
INVARIANTS SameDensity Normalised Bounded Factored
CHECK_DEADLOCK FALSE
