------------------------------- MODULE Gauge --------------------------------
(* Lattice gauge fields: a matrix of Gaussian integers on every link.  U[x][a]
   is the link from site x (numbered row-major from 0, so U[k+1]) in direction
   a.  The library's operations on fields, and their relation to the symmetry
   group of the lattice.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
La == INSTANCE Lattice WITH Sizes0 <- {}, MaxLen <- 0, WithTrans <- FALSE, L <- <<1>>, g <- 0, word <- <<>>
N(L) == La!Prod0(L)
X(L, k) == La!Coord(L, k)
At(U, L, x) == U[La!Lin(L, x) + 1]
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN <<0, 0>> ELSE CAdd(Head(s), CSum(Tail(s)))
MMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> CSum([k \in 1..Len(A) |-> CMul(A[i][k], B[k][j])])]]
Dag(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> <<A[j][i][1], 0 - A[j][i][2]>>]]
ReTr(A) == La!Sum0([i \in 1..Len(A) |-> A[i][i][1]])
Unit(L, a) == [b \in 1..Len(L) |-> IF a = b THEN 1 ELSE 0]
Plus(L, x, v) == [a \in 1..Len(L) |-> (x[a] + v[a]) % L[a]]
FieldOf(L, F(_, _)) == [k \in 1..N(L) |-> [a \in 1..Len(L) |-> F(X(L, k - 1), a)]]

Roll(L, U, v) == FieldOf(L, LAMBDA y, a : At(U, L, Plus(L, y, v))[a])
SwapL(L, a, b) == [L EXCEPT ![a] = L[b], ![b] = L[a]]
Other(c, a, b) == IF c = a THEN b ELSE IF c = b THEN a ELSE c
Swap(L, U, a, b) == FieldOf(SwapL(L, a, b), LAMBDA y, c : At(U, L, SwapL(y, a, b))[Other(c, a, b)])
Flip(L, U, a) == FieldOf(L, LAMBDA y, c :
   IF c = a THEN Dag(At(U, L, [y EXCEPT ![a] = (L[a] - 2 - y[a]) % L[a]])[a])
   ELSE At(U, L, [y EXCEPT ![a] = L[a] - 1 - y[a]])[c])
Rot(L, U, a, b) == Flip(SwapL(L, a, b), Swap(L, U, a, b), a)
Gauge(L, U, G) == FieldOf(L, LAMBDA y, a :
   MMul(G[La!Lin(L, y) + 1], MMul(At(U, L, y)[a], Dag(G[La!Lin(L, Plus(L, y, Unit(L, a))) + 1]))))
Plaq(L, U, x, m, n) == MMul(At(U, L, x)[m], MMul(At(U, L, Plus(L, x, Unit(L, m)))[n],
                            MMul(Dag(At(U, L, Plus(L, x, Unit(L, n)))[m]), Dag(At(U, L, x)[n]))))
Planes(L) == {mn \in (1..Len(L)) \X (1..Len(L)) : mn[1] < mn[2]}
RECURSIVE SumS(_, _)
SumS(F(_), S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN F(s) + SumS(F, S \ {s})
ActionSum(L, U) == SumS(LAMBDA xp : ReTr(Plaq(L, U, xp[1], xp[2][1], xp[2][2])),
                        {X(L, k) : k \in 0..(N(L) - 1)} \X Planes(L))
Apply(L, U, op, G) == IF op[1] = "roll" THEN Roll(L, U, [a \in 1..Len(L) |-> IF a = op[2] + 1 THEN op[3] ELSE 0])
                      ELSE IF op[1] = "swap" THEN Swap(L, U, op[2] + 1, op[3] + 1)
                      ELSE IF op[1] = "flip" THEN Flip(L, U, op[2] + 1)
                      ELSE IF op[1] = "rot" THEN Rot(L, U, op[2] + 1, op[3] + 1)
                      ELSE Gauge(L, U, G)
NewL(L, op) == IF op[1] \in {"swap", "rot"} THEN SwapL(L, op[2] + 1, op[3] + 1) ELSE L
=============================================================================
