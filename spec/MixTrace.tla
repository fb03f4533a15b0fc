------------------------------ MODULE MixTrace ------------------------------
(* Judges recorded scores, parameters and draws of real mixtures against the
   exact mixtures of Mixture.                                                *)
EXTENDS TraceLib
VARIABLES kind, n, comps, phase, base, l, bad
M == INSTANCE Mixture WITH Dims <- {}, Weights <- {}, Centres <- {}, Diags <- {}, Offs <- {}, MaxComp <- 0
mv == <<kind, n, comps, phase, base>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == kind = "none" /\ n = 0 /\ comps = <<>> /\ phase = "done" /\ base = <<>> /\ l = 1 /\ bad = <<>>
(* the mixture all following lines are about *)
New == e.ev = "Mix" /\ kind' = e.kind /\ n' = e.n /\ comps' = e.comps /\ phase' = "done" /\ base' = e.comps /\ Note(<<>>)
W == M!WSum(comps)
Shifted(z, c) == [i \in DOMAIN z |-> z[i] - c]
(* a score arrives as W exp(ld + n/2 log 2 pi + N0/32) in units 2^-20 with its own N0 *)
Want(z) == M!Gauss(comps, z, M!LeastN(M!Live(comps), z))
ScoredGauss(i) == LET z == Shifted(e.zs[i], e.c) N0 == M!LeastN(M!Live(comps), z) IN
   e.n0[i] = N0 /\ IsFin(e.ds[i]) /\ Abs((4 * e.ds[i]) - M!Gauss(comps, z, N0)) <= 64 + (16 * W)
ScoredBox(i) == LET v == M!Boxes(comps, Shifted(e.zs[i], e.c)) IN
   IF v = 0 THEN e.lds[i] = NInf ELSE Close(e.lds[i], M!LNT[v] - M!LNT[W], 64)
Score == /\ e.ev = "Score" /\ UNCHANGED mv
         /\ Note(<< <<"density-is-the-weighted-sum", Len(e.lds) = Len(e.zs) /\ \A i \in DOMAIN e.zs : IF kind = "box" THEN ScoredBox(i) ELSE ScoredGauss(i)>>,
                    <<"one-log-density-per-element", e.ldshape = e.bshape /\ e.got = e.bshape>> >>)
Ln(k) == IF k = 0 THEN NInf ELSE M!LNT[k] - M!LNT[W]
(* A C A' = 1, with C in units 2^-14 *)
RECURSIVE RowDot(_, _, _)
RowDot(a, b, j) == IF j = 0 THEN 0 ELSE (a[j] * b[j]) + RowDot(a, b, j - 1)
Cov(c, C) == \A i, j \in 1..n :
   LET t == [q \in 1..n |-> RowDot(c.A[i], [p \in 1..n |-> C[p][q]], n)] v == RowDot(t, c.A[j], n) IN Abs(v - (IF i = j THEN 16384 ELSE 0)) <= 64
Props == /\ e.ev = "Props" /\ UNCHANGED mv
         /\ Note(<< <<"weights-are-normalised", Len(e.weights) = Len(comps) /\ \A k \in DOMAIN comps : Abs((W * e.weights[k]) - (comps[k].w * Unit)) <= 16 * W>>,
                    <<"log-weights-are-normalised", e.logw = <<>> \/ (Len(e.logw) = Len(comps) /\ \A k \in DOMAIN comps : Close(e.logw[k], Ln(comps[k].w), 16))>>,
                    <<"means-are-the-given-ones", e.means = <<>> \/ (Len(e.means) = Len(comps) /\ \A k \in DOMAIN comps : e.means[k] = comps[k].m)>>,
                    <<"covariances-are-the-given-ones", e.covs = <<>> \/ (Len(e.covs) = Len(comps) /\ \A k \in DOMAIN comps : Cov(comps[k], e.covs[k]))>> >>)
(* num draws; counts per component, per adjacent pair of components, and per cell of the
   whitened coordinates of each component: eight cells of equal probability *)
Sq(a) == IF Abs(a) > 40000 THEN 1600000000 ELSE a * a
Six(cnt, num, a, b) == Sq((b * cnt) - (num * a)) <= (36 * num * a * (b - a)) + (b * b)
Freq == /\ e.ev = "Freq" /\ UNCHANGED mv
        /\ Note(<< <<"every-draw-comes-from-one-component", SumSeq(e.cnt) = e.num>>,
                   <<"components-appear-with-their-weights", \A k \in DOMAIN comps : Six(e.cnt[k], e.num, comps[k].w, W)>>,
                   <<"adjacent-draws-choose-independently", \A h \in DOMAIN e.same : \A k \in DOMAIN comps : comps[k].w * comps[k].w < W * W =>
                        Six(e.same[h][k], e.pairs, comps[k].w * comps[k].w, W * W)>>,
                   <<"draws-follow-the-chosen-component", \A k \in DOMAIN e.cells : \A i \in DOMAIN e.cells[k] :
                        SumSeq(e.cells[k][i]) = e.cnt[k] /\ \A b \in 1..8 : Six(e.cells[k][i][b], e.cnt[k], 1, 8)>> >>)
Err == e.ev = "Error" /\ UNCHANGED mv /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED <<mv, bad>>
Next == (l <= Len(Trace) /\ (New \/ Score \/ Props \/ Freq \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<mv, l, bad>>
=============================================================================
