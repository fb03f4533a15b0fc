CONSTANTS Entries = {1, 2}
          MaxRank = 4
          MaxGiven = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
