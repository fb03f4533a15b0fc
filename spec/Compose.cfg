CONSTANTS MaxTok = 4
          MaxSize = 6
SPECIFICATION Spec
CONSTRAINT Fits
INVARIANTS RoundTrip InverseSwaps ChainFlattens Gen
CHECK_DEADLOCK FALSE
