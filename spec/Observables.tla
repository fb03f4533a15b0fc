---------------------------- MODULE Observables -----------------------------
(* Lattice sums of scalar fields in exact integers.  A field f is a sequence
   over the sites of lattice L, numbered row-major.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LO == INSTANCE Lattice WITH Sizes0 <- {}, MaxLen <- 0, WithTrans <- FALSE, L <- <<1>>, g <- 0, word <- <<>>
RECURSIVE SumQ(_), Pow(_, _)
SumQ(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumQ(Tail(s))
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
NS(L) == LO!Prod0(L)
CX(L, k) == LO!Coord(L, k - 1)
V(L, f, x) == f[LO!Lin(L, x) + 1]
Nxt(L, x, a) == LO!Shift(L, x, a, 1)
Kin(L, f) == [k \in 1..NS(L) |-> SumQ([a \in 1..Len(L) |-> LET d == V(L, f, Nxt(L, CX(L, k), a)) - f[k] IN d * d])]
Phi4(L, f, m2, lam) == LET T == Kin(L, f) IN [k \in 1..NS(L) |-> T[k] + m2 * f[k] * f[k] + lam * Pow(f[k], 4)]
Hop(L, f, kap, lam) == [k \in 1..NS(L) |-> ((0 - 2) * kap * f[k] * SumQ([a \in 1..Len(L) |-> V(L, f, Nxt(L, CX(L, k), a))]))
                                           + (1 - 2 * lam) * f[k] * f[k] + lam * Pow(f[k], 4)]
(* coefficients from the highest power down to the linear one *)
Poly(f, c, even) == [k \in 1..Len(f) |-> LET b == IF even THEN f[k] * f[k] ELSE f[k] IN
                        SumQ([i \in 1..Len(c) |-> c[i] * Pow(b, Len(c) + 1 - i)])]
Add(L, x, y) == [a \in 1..Len(L) |-> (x[a] + y[a]) % L[a]]
(* N times the cyclic correlation *)
Corr(L, f, h) == [k \in 1..NS(L) |-> SumQ([j \in 1..NS(L) |-> f[j] * V(L, h, Add(L, CX(L, j), CX(L, k)))])]
Tensor(L, f, h) == [k \in 1..NS(L) |-> [j \in 1..NS(L) |-> f[j] * V(L, h, Add(L, CX(L, j), CX(L, k)))]]
CorrMat(L, T) == [k \in 1..NS(L) |-> SumQ([j \in 1..NS(L) |-> T[j][LO!Lin(L, Add(L, CX(L, j), CX(L, k))) + 1]])]
SumF(fs) == [k \in DOMAIN fs[1] |-> SumQ([s \in DOMAIN fs |-> fs[s][k]])]
(* N B times the two-point function, and N B^2 times the connected one        *)
Two(L, fs) == SumF([s \in DOMAIN fs |-> Corr(L, fs[s], fs[s])])
TwoC(L, fs) == LET t == Two(L, fs) m == SumF(fs) c == Corr(L, m, m) IN [k \in DOMAIN t |-> (Len(fs) * t[k]) - c[k]]
Moved(L, g, f) == LET iv == LO!Perm(L, LO!Inverse(L, g)) IN [k \in 1..Len(f) |-> f[iv[k] + 1]]
Point(g) == [g EXCEPT !.t = [a \in DOMAIN g.t |-> 0]]
=============================================================================
