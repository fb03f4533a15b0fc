CONSTANTS His = {1, 3}
          Len0 = 4
SPECIFICATION Spec
INVARIANTS PositionIsNetMoves MirrorCancels Gen
CHECK_DEADLOCK FALSE
