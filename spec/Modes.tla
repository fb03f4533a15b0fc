------------------------------- MODULE Modes --------------------------------
(* The index algebra of real discrete Fourier transforms.  A mode of a lattice
   with side lengths n is a tuple k with 0 <= k[a] < n[a]; a real field has
   F(-k) = conj F(k).  The half-complex spectrum keeps the modes with
   k[d] <= n[d] div 2.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Trig
RECURSIVE Prod0(_), Coord(_, _)
Prod0(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod0(Tail(s))
Coord(sh, k) == IF sh = <<>> THEN <<>>
                ELSE LET r == Prod0(Tail(sh)) IN <<k \div r>> \o Coord(Tail(sh), k % r)
RECURSIVE LinGo(_, _, _, _)
LinGo(sh, c, i, acc) == IF i > Len(sh) THEN acc ELSE LinGo(sh, c, i + 1, acc * sh[i] + c[i])
Lin(sh, c) == LinGo(sh, c, 1, 0)
Sites(n) == {Coord(n, i) : i \in 0..(Prod0(n) - 1)}
Half(n)  == [a \in 1..Len(n) |-> IF a = Len(n) THEN (n[a] \div 2) + 1 ELSE n[a]]
Red(n)   == {Coord(Half(n), i) : i \in 0..(Prod0(Half(n)) - 1)}
Neg(n, k) == [a \in 1..Len(n) |-> (n[a] - k[a]) % n[a]]
Real0(n, k) == Neg(n, k) = k

(* a choice of independent modes: one of each pair {k, -k}                   *)
Chosen(n, K) == /\ K \subseteq Red(n)
                /\ \A k \in Sites(n) : Real0(n, k) => k \in K
                /\ \A k \in Sites(n) : ~Real0(n, k) => Cardinality({k, Neg(n, k)} \cap K) = 1
Imag(n, K) == {k \in K : ~Real0(n, k)}
(* one choice: the first of each pair in row-major order                     *)
First(n) == {k \in Red(n) : Neg(n, k) \notin Red(n) \/ Lin(Half(n), k) <= Lin(Half(n), Neg(n, k))}

(* phases as multiples of 2 pi / 120 *)
Phase(n, k, x) == LET RECURSIVE Go(_)
                      Go(a) == IF a > Len(n) THEN 0 ELSE (k[a] * x[a] * (120 \div n[a])) + Go(a + 1)
                  IN Go(1) % 120
(* unnormalised transform of a field f (a sequence over sites), units 2^-16  *)
FT(n, f, k) == LET N == Prod0(n)
                   RECURSIVE Re(_), Im(_)
                   Re(i) == IF i = N THEN 0 ELSE f[i + 1] * Cos120(Phase(n, k, Coord(n, i))) + Re(i + 1)
                   Im(i) == IF i = N THEN 0 ELSE f[i + 1] * (0 - Sin120(Phase(n, k, Coord(n, i)))) + Im(i + 1)
               IN <<Re(0), Im(0)>>
Spectrum(n, f) == [i \in 1..Prod0(Half(n)) |-> FT(n, f, Coord(Half(n), i - 1))]
Laplace(n, k) == LET RECURSIVE Go(_)       \* sum of 2 - 2 cos(2 pi k/n), units 2^-16
                     Go(a) == IF a > Len(n) THEN 0
                              ELSE 2 * U16 - 2 * Cos120(k[a] * (120 \div n[a])) + Go(a + 1)
                 IN Go(1)

(* ------------------------------------------------ conversions of one field *)
Reps == <<"real_space", "rfft", "comp_complex", "comp_real">>
CONSTANTS Shapes0, MaxLen
VARIABLES n, layout, word
Layouts == {"none", "batch", "channel", "both"}
Init == n \in Shapes0 /\ layout \in Layouts /\ word = <<>>
Convert(r) == Len(word) < MaxLen /\ word' = Append(word, r) /\ UNCHANGED <<n, layout>>
Next == \E r \in 1..4 : Convert(Reps[r])
Spec == Init /\ [][Next]_<<n, layout, word>>

IndependentModesCountOnce ==
   word = <<>> => /\ Chosen(n, First(n))
                  /\ Cardinality(First(n)) + Cardinality(Imag(n, First(n))) = Prod0(n)
NearZero(v) == v >= 0 - 40 /\ v <= 40
Hermitian == word = <<>> => LET f == [i \in 1..Prod0(n) |-> ((i * i) % 7) - 3] IN
      \A k \in Red(n) : LET a == FT(n, f, k) b == FT(n, f, Neg(n, k))
                        IN a[1] = b[1] /\ NearZero(a[2] + b[2]) /\ (Real0(n, k) => NearZero(a[2]))
Gen == (Len(word) = MaxLen) => PrintT("CASE " \o ToJson([n |-> n, layout |-> layout, word |-> word]))
=============================================================================
