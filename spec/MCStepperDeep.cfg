SPECIFICATION Spec
CONSTANTS TMax = 2 HMax = 3 Gens = FALSE
INVARIANTS Inside Covers ConstantFieldExact EvalTimesInStep Exact
CHECK_DEADLOCK FALSE
