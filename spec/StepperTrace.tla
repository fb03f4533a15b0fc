---------------------------- MODULE StepperTrace ----------------------------
(* Judges recorded integrations: exactly, against the stepper.               *)
EXTENDS TraceLib
VARIABLES l, bad
S == INSTANCE Stepper
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == l = 1 /\ bad = <<>>
Ran == /\ e.ev = "Run"
   /\ LET r == S!Run(S!Tabs[e.tab], "digest", e.P, e.t0, e.t1, e.h, [v |-> e.v, X |-> e.X]) IN
      Note(<< <<"vector-state-is-that-of-the-stepper", e.ov = r.v>>,
              <<"matrix-state-is-that-of-the-stepper", e.oX = r.X>>,
              <<"structure-kept", e.kept>> >>)
Graded == /\ e.ev = "Grad"
   /\ LET g == S!Grad(e.P, e.t0, e.t1, e.h, e.v, e.w) IN
      Note(<< <<"gradient-of-the-parameters", e.gp = g.p>>, <<"gradient-of-the-initial-state", e.gv = g.v>>,
              <<"gradient-of-the-times", e.gt = g.t>>, <<"value", e.val = S!Loss(e.P, e.t0, e.t1, e.h, e.v, e.w)>> >>)
(* coefficients are logged times D *)
Tableau == /\ e.ev = "Tab"
   /\ LET T == S!Tabs[e.tab] n == S!Stages(T) IN
      Note(<< <<"stage-coefficients", e.a = T.a>>, <<"weights", e.b = T.b>>, <<"nodes", e.c = [i \in 1..n |-> S!Node(T, i)]>>, <<"stages", e.s = n>> >>)
(* coefficients in tenths: accepted exactly when explicit and consistent *)
Built == /\ e.ev = "Built"
   /\ LET n == Len(e.b)
          ok == /\ \A i \in 1..n : Len(e.a[i]) = n /\ \A j \in i..n : e.a[i][j] = 0
                /\ SumSeq(e.b) = 10 IN
      Note(<< <<"explicit-consistent-tableaus-only", e.accepted = ok>> >>)
(* g g^H times 2^20 as rows of re/im pairs, and the determinant *)
I2(n) == [k \in 1..2 * n * n |-> IF k % 2 = 1 /\ ((k - 1) \div 2) % (n + 1) = 0 THEN Unit ELSE 0]
Grouped == /\ e.ev = "Group"
   /\ Note(<< <<"state-unitary", CloseSeq(e.gram, [k \in DOMAIN I2(e.n) |-> I2(e.n)[k] * e.scale], 64 * e.scale)>>,
              <<"unit-determinant", e.special => CloseSeq(e.det, <<Unit, 0>>, 64)>> >>)
Retraced == /\ e.ev = "Back" /\ Note(<< <<"path-retraced", CloseSeq(e.x0, e.x2, e.tol)>>, <<"path-left", ~CloseSeq(e.x0, e.x1, e.tol * 4)>> >>)
Sensitive == /\ e.ev = "Adj" /\ Note(<< <<"gradient-is-that-of-the-flow", CloseSeq(e.g, e.fd, e.tol)>> >>)
(* integer matrices x: 2n times the projection to (traceless) antihermitian matrices *)
Cx(f, n, i, j) == <<f[2 * ((i - 1) * n + j) - 1], f[2 * ((i - 1) * n + j)]>>
TrC(f, n) == <<SumSeq([i \in 1..n |-> Cx(f, n, i, i)[1]]), SumSeq([i \in 1..n |-> Cx(f, n, i, i)[2]])>>
AntiH(f, n, special) == [k \in 1..2 * n * n |->
   LET i == ((k - 1) \div 2) \div n + 1 j == (((k - 1) \div 2) % n) + 1 im == k % 2 = 0
       d == IF i = j /\ special /\ im THEN 2 * TrC(f, n)[2] ELSE 0 IN
   IF im THEN n * (Cx(f, n, i, j)[2] + Cx(f, n, j, i)[2]) - d ELSE n * (Cx(f, n, i, j)[1] - Cx(f, n, j, i)[1])]
Projected == /\ e.ev = "Alg" /\ Note(<< <<"projection-to-the-algebra", \A b \in DOMAIN e.x : e.p[b] = AntiH(e.x[b], e.n, e.special)>>, <<"idempotent", e.pp = e.p>> >>)
Noise == /\ e.ev = "Sde" /\ Note(<< <<"noise-enters-once-per-step", e.out = [c \in DOMAIN e.y |-> e.y[c] + S!Dir(e.t0, e.t1) * (((S!Ab(e.t1 - e.t0)) * e.k[c])) + (((S!Ab(e.t1 - e.t0)) + e.h - 1) \div e.h) * e.s[c]]>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Ran \/ Graded \/ Tableau \/ Built \/ Grouped \/ Retraced \/ Sensitive \/ Projected \/ Noise \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
