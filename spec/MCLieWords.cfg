SPECIFICATION Spec
CONSTANTS Kinds = {"su2", "u1"} MaxMoves = 1 MaxLetters = 1 Leaves = 2 Words = TRUE GenCases = FALSE
INVARIANTS InGroup GradIsGradient Linear Sides Together ClassFunction
CHECK_DEADLOCK FALSE
