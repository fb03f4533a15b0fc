SPECIFICATION Spec
CONSTANTS Goals = {3} MaxTok = 3 Sizes = {1, 2}
INVARIANTS Replays RoundTrip Inverts Volume
PROPERTY CrossKeeps
CHECK_DEADLOCK FALSE
