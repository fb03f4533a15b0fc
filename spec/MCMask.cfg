CONSTANTS Shapes0 <- MCShapes
          MaxFlips = 2
SPECIFICATION Spec
INVARIANTS Partition Lossless FlipTwiceIsIdentity CouplingInverts Gen
CHECK_DEADLOCK FALSE
