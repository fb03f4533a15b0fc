SPECIFICATION Spec
CONSTANTS Kinds = {"su2", "su3", "so3", "u1", "u2", "cartan"} MaxMoves = 5 MaxLetters = 0 Leaves = 1 Words = FALSE GenCases = FALSE
INVARIANTS InGroup GradIsGradient Linear Sides Together Complete Casimir
CHECK_DEADLOCK FALSE
