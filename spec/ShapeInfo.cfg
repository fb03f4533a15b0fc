CONSTANTS Entries = {1, 2}
          MaxRank = 4
          MaxGiven = 2
SPECIFICATION Spec
INVARIANTS ClosureIsDetermination Gen
CHECK_DEADLOCK FALSE
