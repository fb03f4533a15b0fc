SPECIFICATION Spec
CONSTANTS NetKinds = {"mlp", "res", "conv"} Sizes = {1, 2} Depths = {0, 1, 2} Acts = {"id", "relu", "wrap"} Lattices <- SmallLat Taps <- SmallTaps Spread = 2 MaxX = 2
INVARIANTS Widths Meaning Translates Bare
CHECK_DEADLOCK FALSE
