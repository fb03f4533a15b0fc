CONSTANTS MaxTok = 10
          MaxSize = 6
SPECIFICATION Spec
CONSTRAINT Fits
INVARIANTS RoundTrip InverseSwaps Gen
CHECK_DEADLOCK FALSE
