SPECIFICATION Spec
CONSTANTS Classes = {"param", "const", "stat"} Wraps = {"frozen", "inverse"} Fields = {} MaxLeaves = 4 MaxStack = 2 Goal = 5 MaxOps = 2 Deltas = {1}
INVARIANTS Owned Sound Partition
PROPERTIES Stays Forever OnlySelected
CHECK_DEADLOCK FALSE
