------------------------------- MODULE MCMask -------------------------------
EXTENDS Mask
MCShapes == {<<1>>, <<3>>, <<4>>, <<2, 2>>, <<2, 3>>, <<1, 3>>, <<2, 1, 2>>, <<3, 2>>}
=============================================================================
