SPECIFICATION GSpec
CONSTANTS Classes = {"param", "const", "stat"} Wraps = {"frozen", "inverse", "scan", "field", "cond", "pair", "partial"} Fields = {} MaxLeaves = 6 MaxStack = 3 Goal = 11 MaxOps = 7 Deltas = {1, 2, 3}
INVARIANTS Gen
CHECK_DEADLOCK FALSE
