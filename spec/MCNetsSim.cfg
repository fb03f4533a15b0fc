SPECIFICATION GSpec
CONSTANTS NetKinds = {"mlp", "res", "conv"} Sizes = {1, 2, 3, 4} Depths = {0, 1, 2, 3} Acts = {"id", "relu", "wrap", "neg", "sq"} Lattices <- ManyLat Taps <- ManyTaps Spread = 2 MaxX = 3
INVARIANTS Gen
CHECK_DEADLOCK FALSE
