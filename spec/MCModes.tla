------------------------------ MODULE MCModes -------------------------------
EXTENDS Modes
S1 == {<<a>> : a \in {1, 2, 3, 4, 5, 6, 8}}
S2 == {<<a, b>> : a \in 1..5, b \in 1..6}
S3 == {<<a, b, c>> : a \in {1, 2, 3}, b \in {1, 2, 4}, c \in {1, 2, 3, 4}}
MCShapes == S1 \cup S2 \cup S3 \cup {<<2, 1, 2, 3>>, <<3, 2, 2, 2>>}
=============================================================================
