SPECIFICATION Spec
CONSTANTS TMax = 1 HMax = 2 Gens = FALSE
INVARIANTS Inside Covers ConstantFieldExact EvalTimesInStep Exact
CHECK_DEADLOCK FALSE
