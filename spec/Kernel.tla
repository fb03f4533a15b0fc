------------------------------- MODULE Kernel -------------------------------
(* Convolution kernels as functions of a displacement.  A kernel of side s
   covers the displacements -((s-1) div 2) .. s div 2; on a periodic box of
   that side the point symmetries (reflections, axis exchanges) act on it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
La == INSTANCE Lattice WITH Sizes0 <- {}, MaxLen <- 0, WithTrans <- FALSE, L <- <<1>>, g <- 0, word <- <<>>
Off(s, i) == i - ((s - 1) \div 2)               \* displacement of index i
Idx(s, d) == (d + ((s - 1) \div 2)) % s         \* index of a displacement
Cells(sh) == {La!Coord(sh, k) : k \in 0..(La!Prod0(sh) - 1)}
Disp(sh, x) == [a \in 1..Len(sh) |-> Off(sh[a], x[a])]
AbsV(d) == IF d < 0 THEN 0 - d ELSE d
Flip(sh, x, a) == [x EXCEPT ![a] = Idx(sh[a], 0 - Off(sh[a], x[a]))]
Swap(x, a, b) == [x EXCEPT ![a] = x[b], ![b] = x[a]]
Dist2(sh, x) == LET d == Disp(sh, x) IN La!Sum0([a \in 1..Len(sh) |-> d[a] * d[a]])
(* classes of the point group: the multiset of absolute displacements        *)
Count(s, v) == Cardinality({a \in DOMAIN s : s[a] = v})
SameShape(sh, x, y) == LET u == [a \in 1..Len(sh) |-> AbsV(Disp(sh, x)[a])]
                           v == [a \in 1..Len(sh) |-> AbsV(Disp(sh, y)[a])]
                       IN \A w \in {u[a] : a \in 1..Len(sh)} : Count(u, w) = Count(v, w)
(* cells reachable from a set under generators given as functions of cells   *)
RECURSIVE Reach(_, _)
Reach(S, Gs) == LET N == S \cup {q[x] : x \in S, q \in Gs} IN IF N = S THEN S ELSE Reach(N, Gs)
PointGens(sh) == {[x \in Cells(sh) |-> Flip(sh, x, a)] : a \in 1..Len(sh)}
                 \cup {[x \in Cells(sh) |-> Swap(x, ab[1], ab[2])] : ab \in (1..Len(sh)) \X (1..Len(sh))}

CONSTANT Cubes
VARIABLES sh
Init == sh \in Cubes
Spec == Init /\ [][FALSE]_sh
OrbitsAreShapes == \A x \in Cells(sh) : Reach({x}, PointGens(sh)) = {y \in Cells(sh) : SameShape(sh, x, y)}
EqualDistanceIsCoarser == \A x \in Cells(sh) : \A y \in Cells(sh) : SameShape(sh, x, y) => Dist2(sh, x) = Dist2(sh, y)
CentreIsFixed == LET c == [a \in 1..Len(sh) |-> Idx(sh[a], 0)] IN Reach({c}, PointGens(sh)) = {c}

(* one convolution: out(x) = b + sum over displacements d of K(d) in(x + d)   *)
RECURSIVE SumOver(_, _)
SumOver(F(_), S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN F(k) + SumOver(F, S \ {k})
Conv(L, ksh, K, f, x) ==
   LET Term(c) == LET d == Disp(ksh, La!Coord(ksh, c)) IN
         K[c + 1] * f[La!Lin(L, [a \in 1..Len(L) |-> (x[a] + d[a]) % L[a]]) + 1]
   IN SumOver(Term, 0..(La!Prod0(ksh) - 1))
(* kernels with entries tied by orbit commute with the point group, when every
   displacement has its opposite (odd side, or side equal to the lattice)     *)
KOrb(c) == LET x == La!Coord(sh, c) IN ((La!Sum0([a \in 1..Len(sh) |-> AbsV(Disp(sh, x)[a])]) * 3) % 5) + (Dist2(sh, x) % 2) - 1
Equivariant == (La!Prod0(sh) <= 27) =>
   LET L == [a \in 1..Len(sh) |-> IF sh[a] % 2 = 0 THEN sh[a] ELSE 4]
       K == [c \in 1..La!Prod0(sh) |-> KOrb(c - 1)]
       f == [k \in 1..La!Prod0(L) |-> ((k * k * 3) + k) % 11]
       G == {La!FlipG(L, a) : a \in 1..Len(L)} \cup {La!SwapG(L, a, b) : a \in 1..Len(L), b \in 1..Len(L)}
            \cup {La!TransG(L, 1, 1)}
       moved(h) == LET iv == La!Perm(L, La!Inverse(L, h)) IN [k \in 1..Len(f) |-> f[iv[k] + 1]]
   IN La!Prod0(L) <= 16 => \A h \in G : \A k \in 0..(La!Prod0(L) - 1) :
        Conv(L, sh, K, moved(h), La!Act(L, h, La!Coord(L, k))) = Conv(L, sh, K, f, La!Coord(L, k))
=============================================================================
