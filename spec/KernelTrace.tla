---------------------------- MODULE KernelTrace -----------------------------
(* Judges recorded orbit tables, kernel surgery and convolutions.             *)
EXTENDS TraceLib
VARIABLES l, bad
M == INSTANCE Kernel WITH Cubes <- {}, sh <- <<1>>
La == INSTANCE Lattice WITH Sizes0 <- {}, MaxLen <- 0, WithTrans <- FALSE, L <- <<1>>, g <- 0, word <- <<>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == l = 1 /\ bad = <<>>
N(s) == ProdSeq(s)
X(s, k) == La!Coord(s, k)
(* classes of cells 0..n-1 *)
RECURSIVE Closure(_, _)
Closure(S, gs) == LET T == S \cup {gs[i][k + 1] : i \in DOMAIN gs, k \in S} IN IF T = S THEN S ELSE Closure(T, gs)
Tied(k, m) == IF e.kind = "d4" THEN M!SameShape(e.shape, X(e.shape, k), X(e.shape, m))
              ELSE M!Dist2(e.shape, X(e.shape, k)) = M!Dist2(e.shape, X(e.shape, m))
Orbits == /\ e.ev = "Orbits"
          /\ LET n == N(e.shape) IN
             Note(<< <<"orbit-table-shape", e.oshape = e.shape /\ Len(e.orbits) = n>>,
                     <<"tied-exactly-when-equivalent",
                        IF e.kind = "gens"
                        THEN \A k \in 0..(n - 1) : LET C == Closure({k}, e.gens) IN
                               \A m \in 0..(n - 1) : (e.orbits[k + 1] = e.orbits[m + 1]) <=> m \in C
                        ELSE \A k, m \in 0..(n - 1) : (e.orbits[k + 1] = e.orbits[m + 1]) <=> Tied(k, m)>>,
                     <<"one-parameter-per-orbit", Range(e.orbits) = 0..(e.count - 1)>>,
                     <<"centre-is-the-first-orbit", e.kind # "gens" => e.orbits[La!Lin(e.shape, [a \in 1..Len(e.shape) |-> M!Idx(e.shape[a], 0)]) + 1] = 0>> >>)
UIdx == /\ e.ev = "UIdx"
        /\ LET n == N(e.shape) d(k) == M!Dist2(e.shape, X(e.shape, k)) IN
           Note(<< <<"unique-indices", Len(e.idx) = n /\ Range(e.idx) = 0..(n - 1)>>,
                   <<"ordered-by-distance", \A k, m \in 0..(n - 1) : d(k) < d(m) => e.idx[k + 1] < e.idx[m + 1]>> >>)
CIdx == /\ e.ev = "CIdx"
        /\ LET n == N(e.shape) D == Len(e.shape) at(x, y) == [a \in 1..D |-> e.idx[a][x * n + y + 1]] IN
           Note(<< <<"index-shape", e.ishape = IF e.flat THEN <<D, n, n>> ELSE <<D>> \o e.shape \o e.shape>>,
                   <<"each-neighbour-once", \A x \in 0..(n - 1) : {at(x, y) : y \in 0..(n - 1)} = {X(e.shape, k) : k \in 0..(n - 1)}>>,
                   <<"displacements", \A x, y \in 0..(n - 1) : LET c == at(0, 0) IN
                        at(x, y) = [a \in 1..D |-> (X(e.shape, y)[a] - X(e.shape, x)[a] + c[a]) % e.shape[a]]>>,
                   <<"uncentred-starts-at-zero", ~e.center => at(0, 0) = [a \in 1..D |-> 0]>> >>)
(* array operations: entry at cell c comes from cell From(c) *)
From(c) == IF e.op = "flip" THEN M!Flip(e.shape, c, e.axes[1] + 1)
           ELSE LET f == M!Flip(e.shape, c, e.axes[1] + 1) IN M!Swap(f, e.axes[1] + 1, e.axes[2] + 1)
Op == /\ e.ev = "Op"
      /\ Note(<< <<"array-operation-is-the-symmetry",
                   e.out = [k \in 1..N(e.shape) |-> La!Lin(e.shape, From(X(e.shape, k - 1)))]>> >>)
Members(o) == {k \in DOMAIN e.orbits : e.orbits[k] = o}
RECURSIVE SumSet(_, _)
SumSet(S, c) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN e.kernel[k][c] + SumSet(S \ {k}, c)
Fold == /\ e.ev = "Fold"
        /\ Note(<< <<"unfold-copies-each-parameter", Len(e.unfolded) = Len(e.orbits)
                      /\ \A k \in DOMAIN e.orbits : e.unfolded[k] = e.params[e.orbits[k] + 1]>>,
                   <<"fold-undoes-unfold", e.refolded = e.params>>,
                   <<"fold-averages-each-orbit", Len(e.folded) = Len(e.params) /\ \A o \in DOMAIN e.folded : \A c \in DOMAIN e.folded[o] :
                       LET S == Members(o - 1) IN Close(e.folded[o][c] * Cardinality(S), SumSet(S, c) * 1024, Cardinality(S))>> >>)
(* a kernel as a function of the displacement, resized *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Resize == /\ e.ev = "Resize"
   /\ LET D == Len(e.old)
          dnew(c) == [a \in 1..D |-> M!Off(e.new[a], c[a])]
          grows(a) == e.new[a] > e.old[a]
          edge(d, a) == e.old[a] % 2 = 0 /\ grows(a) /\ M!AbsV(d[a]) = e.old[a] \div 2
          inside(d) == \A a \in 1..D : edge(d, a) \/ (d[a] >= 0 - ((e.old[a] - 1) \div 2) /\ d[a] <= e.old[a] \div 2)
          src(d) == La!Lin(e.old, [a \in 1..D |-> M!Idx(e.old[a], d[a])]) + 1
          halves(d) == Cardinality({a \in 1..D : edge(d, a)})
          (* cropping to an even side may fold the two ends together *)
          open(d) == \E a \in 1..D : e.new[a] < e.old[a] /\ e.new[a] % 2 = 0 /\ d[a] = e.new[a] \div 2
      IN Note(<< <<"resized-shape", e.oshape = e.new>>,
                 <<"same-weight-at-each-displacement", e.oshape = e.new => \A k \in DOMAIN e.out :
                     LET d == dnew(X(e.new, k - 1)) IN open(d) \/
                     e.out[k] = IF inside(d) THEN [c \in DOMAIN e.out[k] |-> e.kernel[src(d)][c] \div Pow2(halves(d))]
                                ELSE [c \in DOMAIN e.out[k] |-> 0]>> >>)
Want(o, k, f) == LET One(i) == M!Conv(e.L, e.ksh, [c \in DOMAIN e.K |-> e.K[c][(i - 1) * e.nout + o]], f[i], X(e.L, k))
                 IN e.bias[o] + SumSeq([i \in 1..e.nin |-> One(i)])
Conv == /\ e.ev = "Conv"
        /\ Note(<< <<"kernel-is-unfolded-parameters", e.K = [c \in DOMAIN e.orbits |-> e.params[e.orbits[c] + 1]]>>,
                   <<"convolution-sum", \A b \in DOMAIN e.x : \A o \in 1..e.nout : \A k \in 1..N(e.L) : e.y[b][o][k] = Want(o, k - 1, e.x[b])>>,
                   <<"output-shape", e.yshape = e.wshape>> >>)
Equi == /\ e.ev = "Equi"
        /\ LET P == La!Perm(e.L, [p |-> e.p, s |-> e.s, t |-> e.t]) IN
           Note(<< <<"input-moved", \A c \in DOMAIN e.x : \A k \in DOMAIN P : e.gx[c][P[k] + 1] = e.x[c][k]>>,
                   <<"output-moves-along", Len(e.y) > 0 /\ \A c \in DOMAIN e.y : \A k \in DOMAIN P : Close(e.gy[c][P[k] + 1], e.y[c][k], 400)>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Orbits \/ UIdx \/ CIdx \/ Op \/ Fold \/ Resize \/ Conv \/ Equi \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
