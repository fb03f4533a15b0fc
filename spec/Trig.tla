-------------------------------- MODULE Trig --------------------------------
(* cos(2 pi j / 120) in units of 2^-16, for exact phase arithmetic on lattices
   whose side lengths divide 120.                                           *)
EXTENDS Integers, Sequences
CosTab == <<
  65536, 65446, 65177, 64729, 64104, 63303, 62328, 61183, 59870, 58393,
  56756, 54963, 53020, 50931, 48703, 46341, 43852, 41243, 38521, 35693,
  32768, 29753, 26656, 23486, 20252, 16962, 13626, 10252, 6850, 3430,
  0, (0 - 3430), (0 - 6850), (0 - 10252), (0 - 13626), (0 - 16962), (0 - 20252), (0 - 23486), (0 - 26656), (0 - 29753),
  (0 - 32768), (0 - 35693), (0 - 38521), (0 - 41243), (0 - 43852), (0 - 46341), (0 - 48703), (0 - 50931), (0 - 53020), (0 - 54963),
  (0 - 56756), (0 - 58393), (0 - 59870), (0 - 61183), (0 - 62328), (0 - 63303), (0 - 64104), (0 - 64729), (0 - 65177), (0 - 65446),
  (0 - 65536), (0 - 65446), (0 - 65177), (0 - 64729), (0 - 64104), (0 - 63303), (0 - 62328), (0 - 61183), (0 - 59870), (0 - 58393),
  (0 - 56756), (0 - 54963), (0 - 53020), (0 - 50931), (0 - 48703), (0 - 46341), (0 - 43852), (0 - 41243), (0 - 38521), (0 - 35693),
  (0 - 32768), (0 - 29753), (0 - 26656), (0 - 23486), (0 - 20252), (0 - 16962), (0 - 13626), (0 - 10252), (0 - 6850), (0 - 3430),
  0, 3430, 6850, 10252, 13626, 16962, 20252, 23486, 26656, 29753,
  32768, 35693, 38521, 41243, 43852, 46341, 48703, 50931, 53020, 54963,
  56756, 58393, 59870, 61183, 62328, 63303, 64104, 64729, 65177, 65446>>
Cos120(j) == CosTab[(j % 120) + 1]
Sin120(j) == Cos120(j - 30)
U16 == 65536
=============================================================================
