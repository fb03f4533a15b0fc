------------------------------ MODULE MCKernel ------------------------------
EXTENDS Kernel
MCCubes == {<<a>> : a \in 1..7} \cup {<<a, a>> : a \in 1..5} \cup {<<a, a, a>> : a \in 1..3} \cup {<<2, 2, 2, 2>>}
=============================================================================
