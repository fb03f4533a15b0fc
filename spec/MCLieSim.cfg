SPECIFICATION Spec
CONSTANTS Kinds = {"su2", "su3", "so3", "u1", "u2", "cartan"} MaxMoves = 6 MaxLetters = 5 Leaves = 3 Words = TRUE GenCases = TRUE
INVARIANTS InGroup Gen
CHECK_DEADLOCK FALSE
