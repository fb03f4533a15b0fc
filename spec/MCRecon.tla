------------------------------- MODULE MCRecon -------------------------------
EXTENDS Recon
Lf(p, n, b) == [path |-> p, n |-> n, par |-> b]
MCTrees == { << Lf("a", 2, TRUE), Lf("b", 1, FALSE), Lf("c", 3, TRUE) >>,
             << Lf("a", 1, TRUE) >>, << Lf("a", 2, FALSE), Lf("b", 2, TRUE), Lf("c", 0, TRUE), Lf("d", 1, TRUE) >>,
             << Lf("a", 2, FALSE) >> }
=============================================================================
