------------------------------ MODULE LieTrace ------------------------------
(* Judges recorded operations on Lie groups, exactly, against Lie.           *)
EXTENDS TraceLib
VARIABLES l, bad
S == INSTANCE Lie
C == INSTANCE Trig
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == l = 1 /\ bad = <<>>
CM(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> <<A[i][j][1], A[i][j][2]>>]]
V(f) == S!Val(f, e.us, e.ks, e.S, e.D)
Aux(f) == Has(e, "aux") => e.aux = V(f)
ValIs(f) == Has(e, "val") => e.val = V(f)
(* gradients with respect to several elements, times n Den S^D *)
Graded == /\ e.ev = "Grad"
   /\ Note(<< <<"gradient-is-the-directional-derivative-in-every-direction",
                Len(e.G) = Len(e.leaf) /\ \A x \in DOMAIN e.leaf : e.G[x] = S!Grad(e.k, S!D1(e.k, e.f, e.us, e.ks, e.S, e.D, e.leaf[x]))>>,
              <<"value", ValIs(e.f)>>, <<"auxiliary-output", Aux(e.f)>>, <<"structure", e.kept>> >>)
Curved == /\ e.ev = "Curve"
   /\ Note(<< <<"derivative-along-the-curve", e.d = S!FJet(e.f, e.us, e.ks, e.S, e.D, {e.leaf[x] : x \in DOMAIN e.leaf}, S!Comb(e.k, e.X), e.left)[2]>>,
              <<"value", ValIs(e.f)>>, <<"auxiliary-output", Aux(e.f)>> >>)
Laplaced == /\ e.ev = "Lap"
   /\ Note(<< <<"gradient-is-the-directional-derivative-in-every-direction", e.G = S!Grad(e.k, S!D1(e.k, e.f, e.us, e.ks, e.S, e.D, e.leaf))>>,
              <<"divergence-of-the-gradient", e.lap = S!Lap(e.k, S!D2(e.k, e.f, e.us, e.ks, e.S, e.D, e.leaf))>>, <<"value", ValIs(e.f)>> >>)
(* components along each generator for each element, for each function *)
Pathed == /\ e.ev = "Path"
   /\ Note(<< <<"components-of-the-gradient", \A x \in DOMAIN e.fs : \A j \in DOMAIN e.us : e.jac[x][j] = S!D1(e.k, e.fs[x], e.us, e.ks, e.S, e.D, j)>>,
              <<"second-derivatives", Has(e, "jac2") => \A x \in DOMAIN e.fs : \A j \in DOMAIN e.us : e.jac2[x][j] = S!D2(e.k, e.fs[x], e.us, e.ks, e.S, e.D, j)>>,
              <<"value", \A x \in DOMAIN e.fs : e.vals[x] = V(e.fs[x])>>, <<"structure", e.kept>> >>)
(* the vector field with component i at element j: c[j][i] f1 + d[j][i] f2 *)
Diverged == /\ e.ev = "Div"
   /\ LET J == DOMAIN e.us K == 1..S!Dim(e.k)
          comp(j, i) == e.c[j][i] * V(e.fs[1]) + e.d[j][i] * V(e.fs[2])
          D(x, j) == S!D1(e.k, e.fs[x], e.us, e.ks, e.S, e.D, j) IN
      Note(<< <<"divergence", e.div = SumSeq([j \in J |-> LET a == D(1, j) b == D(2, j) IN SumSeq([i \in K |-> e.c[j][i] * a[i] + e.d[j][i] * b[i]])])>>,
              <<"value", \A j \in J : \A i \in K : e.out[j][i] = comp(j, i)>> >>)
Based == /\ e.ev = "Gens" /\ Note(<< <<"generators", e.g = S!Gens(e.k)>>,
              <<"orthonormal", \A i \in DOMAIN e.gram : \A j \in DOMAIN e.gram : e.gram[i][j] = <<IF i = j THEN S!Sq(e.k, i) ELSE 0, 0>> >> >>)
(* n times the default projection, element by element *)
Projected == /\ e.ev = "Proj" /\ Note(<< <<"projection-of-the-cotangent", Len(e.P) = Len(e.us) /\ \A x \in DOMAIN e.us : e.P[x] = S!ProjCot(e.as[x], e.us[x])>>, <<"structure", e.kept>> >>)
(* ---- batched products: shapes, and elements row-major *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Index(sh, k) == [a \in 1..Len(sh) |-> (k \div Prod(SubSeq(sh, a + 1, Len(sh)))) % sh[a]]
RECURSIVE Lin(_, _, _)
Lin(sh, ix, a) == IF a > Len(sh) THEN 0 ELSE (IF sh[a] = 1 THEN 0 ELSE ix[a]) * Prod(SubSeq(sh, a + 1, Len(sh))) + Lin(sh, ix, a + 1)
At(sh, xs, ix) == xs[(IF sh = <<>> THEN 0 ELSE Lin(sh, ix, 1)) + 1]
Wide(shs) == LET r == CHOOSE r \in {Len(shs[i]) : i \in DOMAIN shs} : \A i \in DOMAIN shs : Len(shs[i]) <= r IN
   [a \in 1..r |-> CHOOSE v \in {shs[i][a] : i \in {i \in DOMAIN shs : Len(shs[i]) = r}} : \A i \in DOMAIN shs : Len(shs[i]) = r => shs[i][a] <= v]
Contracted == /\ e.ev = "Contract"
   /\ LET w == Wide(e.shs) N == Prod(w)
          P(k) == S!MProd([i \in DOMAIN e.ms |-> At(e.shs[i], e.ms[i], Index(w, k))]) IN
      Note(<< <<"batch-shape", e.osh = w>>,
              <<"contraction", Len(e.out) = N /\ \A k \in 0..(N - 1) : e.out[k + 1] = IF e.trace THEN S!MTr(P(k)) ELSE P(k)>> >>)
Inner == /\ e.ev = "Inner"
   /\ LET w == Wide(e.shs) N == Prod(w)
          z(k) == S!MTr(S!MMul(S!Dag(At(e.shs[1], e.ms[1], Index(w, k))), At(e.shs[2], e.ms[2], Index(w, k)))) IN
      Note(<< <<"batch-shape", e.osh = w>>, <<"inner-product", Len(e.out) = N /\ \A k \in 0..(N - 1) : e.out[k + 1] = z(k)>> >>)
Adjoint == /\ e.ev = "Dag" /\ Note(<< <<"adjoint", \A k \in DOMAIN e.a : e.b[k] = S!Dag(e.a[k])>>, <<"batch-shape", e.kept>> >>)
(* ---- eigenvalue angles, in units of pi / 6 *)
Cos16(a) == C!Cos120(10 * (a % 12)) * 16
Sin16(a) == C!Sin120(10 * (a % 12)) * 16
TrAt(th, pw) == LET a == S!Close12(th) IN <<SumSeq([i \in DOMAIN a |-> Cos16(pw * a[i])]), SumSeq([i \in DOMAIN a |-> Sin16(pw * a[i])])>>
Density == /\ e.ev = "Vander"
   /\ Note(<< <<"haar-density-of-the-angles", Len(e.rho) = Len(e.th) /\ \A k \in DOMAIN e.th : e.rho[k] = S!Vander(e.th[k])>>, <<"batch-shape", e.kept>> >>)
Eigen == /\ e.ev = "Eigen"
   /\ Note(<< <<"unitary-with-unit-determinant", e.group>>, <<"batch-shape", e.kept>>, <<"not-diagonal-in-a-fixed-basis", e.generic>>,
              <<"eigenvalues", \A k \in DOMAIN e.th : \A pw \in DOMAIN e.tr[k] : CloseSeq(e.tr[k][pw], TrAt(e.th[k], pw), 96)>> >>)
(* midpoint grid with g points per angle; weights times the stated constant *)
Grid == /\ e.ev = "Grid"
   /\ LET step == 12 \div e.g
          ang(k) == [a \in 1..(e.n - 1) |-> (0 - 6) + ((step * (1 + 2 * ((k \div S!Pow(e.g, e.n - 1 - a)) % e.g))) \div 2)]
          N == S!Pow(e.g, e.n - 1) IN
      Note(<< <<"midpoint-grid", Len(e.th) = N /\ \A k \in 0..(N - 1) : e.th[k + 1] = ang(k)>>,
              <<"weights", Len(e.w) = N /\ \A k \in 0..(N - 1) : e.w[k + 1] = S!Vander(ang(k))>>,
              <<"function-at-the-matrices", \A k \in 0..(N - 1) : CloseSeq(<<e.fv[k + 1]>>, <<TrAt(ang(k), 1)[1]>>, 96)>> >>)
(* weights summed with the volume element, for a grid fine enough to be exact *)
Quadrature == /\ e.ev = "Quad" /\ Note(<< <<"normalized", Close(e.total, Unit * (IF e.torus THEN 1 ELSE S!Fact(e.n)), 64)>> >>)
(* ---- samples *)
Sampled == /\ e.ev = "Haar"
   /\ Note(<< <<"shapes", e.sh = e.batch \o e.base \o <<e.n, e.n>> /\ e.lsh = e.batch /\ e.dsh = e.batch>>,
              <<"log-density-zero", \A i \in DOMAIN e.ld : e.ld[i] = 0>>, <<"group-elements", e.group>>, <<"determined-by-the-key", e.same>>, <<"keys-differ", e.differ>> >>)
(* Haar averages: orthogonality of characters and matrix elements, of U, of
   V U and of U V.  Units 2^-20; e.tol is six standard errors.               *)
Averaged == /\ e.ev = "Avg"
   /\ Note(<< <<"haar-average", Close(e.re, e.want[1] * (Unit \div e.want[2]), e.tol) /\ Close(e.im, 0, e.tol)>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Graded \/ Curved \/ Laplaced \/ Pathed \/ Diverged \/ Based \/ Projected \/ Contracted \/ Inner \/ Adjoint
          \/ Density \/ Eigen \/ Grid \/ Quadrature \/ Sampled \/ Averaged \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
