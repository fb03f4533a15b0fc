SPECIFICATION Spec
CONSTANTS TMax = 3 HMax = 4 Gens = TRUE
INVARIANTS Inside Covers ConstantFieldExact EvalTimesInStep Exact Gen
CHECK_DEADLOCK FALSE
