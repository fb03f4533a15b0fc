----------------------------- MODULE FlowTrace ------------------------------
(* Judges recorded calls of continuous flows and of their vector fields.     *)
EXTENDS TraceLib
CONSTANT None
VARIABLES l, bad
S == INSTANCE Stepper
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == l = 1 /\ bad = <<>>
(* a call transports every member of the batch over the effective interval *)
A(c) == IF c.o0 = None THEN e.d0 ELSE c.o0
B(c) == IF c.o1 = None THEN e.d1 ELSE c.o1
Move(c, v) == LET a == IF c.rev THEN B(c) ELSE A(c) b == IF c.rev THEN A(c) ELSE B(c) h == S!Ab(a - b) \div c.steps IN
   S!Run(S!Tabs[e.tab], "flow", e.P, a, b, h, v)
Called == /\ e.ev = "Call"
   /\ Note(<< <<"point-and-density-transported", \A b \in DOMAIN e.v : [v |-> e.ov[b], X |-> e.oX[b]] = Move(e.c, [v |-> e.v[b], X |-> e.X[b]])>>,
              <<"shapes-kept", e.kept>> >>)
(* forward then reverse over the same interval *)
Undone == /\ e.ev = "Undo" /\ Note(<< <<"reverse-undoes-forward", CloseSeq(e.x0, e.x2, e.tol) /\ CloseSeq(e.ld0, e.ld2, e.tol)>>,
              <<"point-moved", e.moved => ~CloseSeq(e.x0, e.x1, e.tol)>> >>)
Volume == /\ e.ev = "Vol" /\ Note(<< <<"density-changes-by-the-volume", Close(e.dld, 0 - e.logdet, e.tol)>> >>)
(* quadratic polynomial fields: f_i = sum A_ij x_j + sum Q_ijk x_j x_k + t c_i *)
Quad(x, i) == LET n == Len(x) IN S!Sum([j \in 1..n |-> e.A[i][j] * x[j] + S!Sum([k \in 1..n |-> e.Q[i][j][k] * x[j] * x[k]])]) + e.t * e.c[i]
QuadDiv(x) == LET n == Len(x) IN S!Sum([i \in 1..n |-> e.A[i][i] + S!Sum([k \in 1..n |-> (e.Q[i][i][k] + e.Q[i][k][i]) * x[k]])])
AutoJac == /\ e.ev = "AutoJac"
   /\ Note(<< <<"velocity", \A b \in DOMAIN e.x : e.v[b] = [i \in DOMAIN e.x[b] |-> Quad(e.x[b], i)]>>,
              <<"divergence", e.d = [b \in DOMAIN e.x |-> 0 - QuadDiv(e.x[b])]>>, <<"shapes-kept", e.kept>> >>)
Traced == /\ e.ev = "Div" /\ Note(<< <<"divergence-of-the-velocity", Close(e.d, 0 - SumSeq(e.diag), 4 + Len(e.diag))>> >>)
(* convolutional field with polynomial features on a periodic lattice *)
RECURSIVE Prod(_)
Prod(L) == IF L = <<>> THEN 1 ELSE Head(L) * Prod(Tail(L))
Coord(L, k) == [a \in DOMAIN L |-> ((k - 1) \div Prod(SubSeq(L, a + 1, Len(L)))) % L[a]]
Index(L, x) == 1 + S!Sum([a \in DOMAIN L |-> x[a] * Prod(SubSeq(L, a + 1, Len(L)))])
RECURSIVE Pow(_, _)
Pow(x, p) == IF p = 0 THEN 1 ELSE x * Pow(x, p - 1)
NF == Len(e.pow)
Feat(x, g) == Pow(x[((g - 1) \div NF) + 1], e.pow[((g - 1) % NF) + 1])
Red(x) == LET n == Len(x) * NF IN IF e.sup = <<>> THEN [g \in 1..n |-> Feat(x, g)]
          ELSE [r \in DOMAIN e.sup |-> S!Sum([g \in 1..n |-> e.sup[r][g] * Feat(x, g)])]
W(k, r, o) == LET T == Len(e.emb) IN S!Sum([t \in 1..T |-> e.par[e.orb[k] + 1][r][(o - 1) * T + t] * e.emb[t]])
Bias(o) == LET T == Len(e.emb) IN IF e.bias = <<>> THEN 0 ELSE e.scale * S!Sum([t \in 1..T |-> e.bias[(o - 1) * T + t] * e.emb[t]])
Offset(k) == LET x == Coord(e.K, k) IN [a \in DOMAIN e.K |-> x[a] - ((e.K[a] - 1) \div 2)]
Site(s, k) == Index(e.L, [a \in DOMAIN e.L |-> (Coord(e.L, s)[a] + Offset(k)[a]) % e.L[a]])
NR == IF e.sup = <<>> THEN e.C * NF ELSE Len(e.sup)
Reds(x) == [s \in DOMAIN x |-> Red(x[s])]
Ws == [k \in 1..Prod(e.K) |-> [r \in 1..NR |-> [o \in 1..e.C |-> W(k, r, o)]]]
Vel(R, Wt) == [s \in DOMAIN R |-> [o \in 1..e.C |-> Bias(o) +
              S!Sum([k \in 1..Prod(e.K) |-> S!Sum([r \in 1..NR |-> Wt[k][r][o] * R[Site(s, k)][r]])])]]
DFeat(x, o, r) == S!Sum([f \in 1..NF |-> IF e.pow[f] = 0 THEN 0 ELSE
    (IF e.sup = <<>> THEN (IF r = (o - 1) * NF + f THEN 1 ELSE 0) ELSE e.sup[r][(o - 1) * NF + f]) * e.pow[f] * Pow(x[o], e.pow[f] - 1)])
Local == {k \in 1..Prod(e.K) : \A a \in DOMAIN e.K : Offset(k)[a] % e.L[a] = 0}
DivC(x, Wt) == S!Sum([s \in DOMAIN x |-> S!Sum([o \in 1..e.C |-> S!Sum([k \in 1..Prod(e.K) |-> IF k \in Local THEN
    S!Sum([r \in 1..NR |-> Wt[k][r][o] * DFeat(x[s], o, r)]) ELSE 0])])])
Conv == /\ e.ev = "Conv"
   /\ LET Wt == Ws IN
      Note(<< <<"velocity-is-the-convolution", \A b \in DOMAIN e.x : e.v[b] = Vel(Reds(e.x[b]), Wt)>>,
              <<"divergence-of-the-convolution", e.d = [b \in DOMAIN e.x |-> 0 - DivC(e.x[b], Wt)]>>, <<"shapes-kept", e.kept>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Called \/ Undone \/ Volume \/ AutoJac \/ Traced \/ Conv \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
