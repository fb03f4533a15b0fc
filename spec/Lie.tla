--------------------------------- MODULE Lie ---------------------------------
(* Matrix Lie groups over Gaussian integers.  A group element is M / S with a
   matrix M of Gaussian integers and a positive integer S, so unitary matrices
   with rational entries are represented exactly.

   Functions on a tuple of group elements are integer combinations of products
   of real or imaginary parts of traces of words in the elements, their
   adjoints, transposes and conjugates, and constant matrices.  They are
   differentiated along t -> exp(tX) U (or U exp(tX)) with jets <<f, f', f''>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CConj(a) == <<a[1], 0 - a[2]>>
CNeg(a) == <<0 - a[1], 0 - a[2]>>
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN <<0, 0>> ELSE CAdd(Head(s), CSum(Tail(s)))
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Cols(A) == Len(A[1])
Mat(n, m, F(_, _)) == TLCEval([i \in 1..n |-> [j \in 1..m |-> F(i, j)]])
MMul(A, B) == LET k == Len(B) c == Cols(B) IN
   TLCEval([i \in 1..Len(A) |-> [j \in 1..c |-> CSum([x \in 1..k |-> CMul(A[i][x], B[x][j])])]])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> CAdd(A[i][j], B[i][j])]])
MScale(k, A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> <<k * A[i][j][1], k * A[i][j][2]>>]])
MSub(A, B) == MAdd(A, MScale(0 - 1, B))
Trn(A) == TLCEval([i \in 1..Cols(A) |-> [j \in 1..Len(A) |-> A[j][i]]])
Cj(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> CConj(A[i][j])]])
Dag(A) == Cj(Trn(A))
MTr(A) == CSum([i \in 1..Len(A) |-> A[i][i]])
Zero(n) == Mat(n, n, LAMBDA i, j : <<0, 0>>)
One(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN <<1, 0>> ELSE <<0, 0>>)
RECURSIVE MSum(_, _)
MSum(n, s) == IF s = <<>> THEN Zero(n) ELSE MAdd(Head(s), MSum(n, Tail(s)))
RECURSIVE MProd(_)
MProd(s) == IF Len(s) = 1 THEN s[1] ELSE MMul(Head(s), MProd(Tail(s)))
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE IF Len(A) = 2 THEN CAdd(CMul(A[1][1], A[2][2]), CNeg(CMul(A[1][2], A[2][1])))
          ELSE LET P(i, j, k) == CMul(A[1][i], CMul(A[2][j], A[3][k])) IN
               CAdd(CAdd(CAdd(P(1, 2, 3), P(2, 3, 1)), P(3, 1, 2)), CNeg(CAdd(CAdd(P(1, 3, 2), P(2, 1, 3)), P(3, 2, 1))))

(* ---- algebras: bases, orthonormal under tr(A^H B)/2 except that the eighth
   generator of su(3) is multiplied by sqrt 3.                               *)
o == <<0, 0>>   p == <<1, 0>>   m == <<0 - 1, 0>>   ii == <<0, 1>>   mi == <<0, 0 - 1>>
SU2 == << <<<<o, ii>>, <<ii, o>>>>, <<<<o, p>>, <<m, o>>>>, <<<<ii, o>>, <<o, mi>>>> >>
SU3 == << <<<<o, ii, o>>, <<ii, o, o>>, <<o, o, o>>>>, <<<<o, p, o>>, <<m, o, o>>, <<o, o, o>>>>,
          <<<<ii, o, o>>, <<o, mi, o>>, <<o, o, o>>>>, <<<<o, o, ii>>, <<o, o, o>>, <<ii, o, o>>>>,
          <<<<o, o, p>>, <<o, o, o>>, <<m, o, o>>>>, <<<<o, o, o>>, <<o, o, ii>>, <<o, ii, o>>>>,
          <<<<o, o, o>>, <<o, o, p>>, <<o, m, o>>>>, <<<<ii, o, o>>, <<o, ii, o>>, <<o, o, <<0, 0 - 2>>>>>> >>
SO3 == << <<<<o, o, o>>, <<o, o, m>>, <<o, p, o>>>>, <<<<o, o, p>>, <<o, o, o>>, <<m, o, o>>>>, <<<<o, m, o>>, <<p, o, o>>, <<o, o, o>>>> >>
Gens(k) == IF k = "su2" THEN SU2 ELSE IF k = "su3" THEN SU3 ELSE IF k = "so3" THEN SO3
           ELSE IF k = "u2" THEN SU2 \o << <<<<ii, o>>, <<o, ii>>>> >>
           ELSE IF k = "cartan" THEN <<SU3[3], SU3[8]>>
           ELSE << <<<<<<0, 2>>>>>> >>
Dim(k) == Len(Gens(k))
Size(k) == Len(Gens(k)[1])
Special(k) == k \in {"su2", "su3", "so3", "cartan"}
Full(k) == k \in {"su2", "su3"}      \* the whole of su(n): the default projection applies
(* squared norm of a generator; gradients are reported times Den *)
Sq(k, i) == LET G == Gens(k)[i] IN MTr(MMul(Dag(G), G))[1] \div 2
Den(k) == IF k \in {"su3", "cartan"} THEN 3 ELSE 1
Grad(k, d) == MSum(Size(k), [i \in 1..Dim(k) |-> MScale((Den(k) \div Sq(k, i)) * d[i], Gens(k)[i])])
(* Den times the sum of second derivatives along an orthonormal basis *)
Lap(k, d2) == ISum([i \in 1..Dim(k) |-> (Den(k) \div Sq(k, i)) * d2[i]])

(* ---- jets *)
JMul(a, b) == <<MMul(a[1], b[1]), MAdd(MMul(a[2], b[1]), MMul(a[1], b[2])),
                MAdd(MAdd(MMul(a[3], b[1]), MMul(a[1], b[3])), MScale(2, MMul(a[2], b[2])))>>
RECURSIVE JProd(_)
JProd(s) == IF Len(s) = 1 THEN s[1] ELSE JMul(Head(s), JProd(Tail(s)))
JMap(F(_), j) == <<F(j[1]), F(j[2]), F(j[3])>>
Const(A) == <<A, Zero(Len(A)), Zero(Len(A))>>
Moved(U, X, left) == IF left THEN <<U, MMul(U, X), MMul(U, MMul(X, X))>> ELSE <<U, MMul(X, U), MMul(X, MMul(X, U))>>
(* letters are <<kind, index>>; the elements in J move along X *)
Letter(l, us, ks, J, X, left) ==
   IF l[1] = "k" THEN Const(ks[l[2]])
   ELSE LET j == IF l[2] \in J THEN Moved(us[l[2]], X, left) ELSE Const(us[l[2]]) IN
        IF l[1] = "u" THEN j ELSE IF l[1] = "h" THEN JMap(Dag, j) ELSE IF l[1] = "t" THEN JMap(Trn, j) ELSE JMap(Cj, j)
Part(prt, z) == IF prt = "re" THEN z[1] ELSE z[2]
Factor(fa, us, ks, J, X, left) ==
   LET j == JProd(TLCEval([i \in 1..Len(fa.w) |-> Letter(fa.w[i], us, ks, J, X, left)])) IN
   <<Part(fa.p, MTr(j[1])), Part(fa.p, MTr(j[2])), Part(fa.p, MTr(j[3]))>>
SMul(a, b) == <<a[1] * b[1], a[2] * b[1] + a[1] * b[2], a[3] * b[1] + 2 * a[2] * b[2] + a[1] * b[3]>>
SAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
RECURSIVE SProd(_)
SProd(s) == IF s = <<>> THEN <<1, 0, 0>> ELSE SMul(Head(s), SProd(Tail(s)))
RECURSIVE SSum(_)
SSum(s) == IF s = <<>> THEN <<0, 0, 0>> ELSE SAdd(Head(s), SSum(Tail(s)))
WDeg(w) == Cardinality({i \in 1..Len(w) : w[i][1] # "k"})
Deg(t) == ISum([i \in 1..Len(t.fs) |-> WDeg(t.fs[i].w)])
MaxDeg(f) == CHOOSE d \in {Deg(f[i]) : i \in 1..Len(f)} : \A i \in 1..Len(f) : Deg(f[i]) <= d
(* S^D times the function and its derivatives, D at least the degree *)
FJet(f, us, ks, S, D, J, X, left) ==
   SSum([i \in 1..Len(f) |-> LET k == f[i].c * Pow(S, D - Deg(f[i]))
                                 j == SProd([x \in 1..Len(f[i].fs) |-> Factor(f[i].fs[x], us, ks, J, X, left)])
                             IN <<k * j[1], k * j[2], k * j[3]>>])
Val(f, us, ks, S, D) == FJet(f, us, ks, S, D, {}, One(Len(us[1])), FALSE)[1]
D1(k, f, us, ks, S, D, j) == TLCEval([i \in 1..Dim(k) |-> FJet(f, us, ks, S, D, {j}, Gens(k)[i], FALSE)[2]])
D2(k, f, us, ks, S, D, j) == TLCEval([i \in 1..Dim(k) |-> FJet(f, us, ks, S, D, {j}, Gens(k)[i], FALSE)[3]])
Comb(k, c) == MSum(Size(k), [i \in 1..Dim(k) |-> MScale(c[i], Gens(k)[i])])
(* n times the orthogonal projection to su(n) of the gradient with cotangent A
   at U: df = Re tr(A^T dU)                                                  *)
ProjCot(A, U) == LET n == Len(U) M == MMul(U, Trn(A)) B == MSub(Dag(M), M) t == MTr(B) IN
   Mat(n, n, LAMBDA i, j : CAdd(<<n * B[i][j][1], n * B[i][j][2]>>, IF i = j THEN CNeg(t) ELSE o))

(* ---- eigenvalue angles in units of 2 pi / 12 *)
Sq12 == <<0, 0 - 99999, 1, 2, 3, 0 - 99999, 4>>      \* 2 - 2 cos, where integral
Chord(a) == LET d == a % 12 b == IF d > 6 THEN 12 - d ELSE d IN Sq12[b + 1]
Close12(th) == Append(th, 0 - ISum(th))
Vander(th) == LET a == Close12(th) n == Len(a)
                  RECURSIVE Pr(_)
                  Pr(s) == IF s = {} THEN 1 ELSE LET x == CHOOSE x \in s : TRUE IN Chord(a[x[1]] - a[x[2]]) * Pr(s \ {x})
              IN Pr({x \in (1..n) \X (1..n) : x[1] < x[2]})
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
=============================================================================
