----------------------------- MODULE MCLattice ------------------------------
EXTENDS Lattice
MCSizes == {<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<2, 3>>, <<3, 4>>, <<2, 2, 2>>, <<3, 3, 2>>, <<3, 2, 3>>, <<2, 3, 3>>, <<3, 3, 3>>}
=============================================================================
