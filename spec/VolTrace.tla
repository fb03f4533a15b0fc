------------------------------ MODULE VolTrace ------------------------------
(* Change of variables, per batch element.

   A "Vol" line records one application of a map (direction dir) to a batch:
   ldi, ldo   log-densities before and after, one per batch element
   slog       log|det| of the Jacobian of the applied map at each element,
              obtained by differentiating the applied map itself
   ldi2, ldo2 a second run with different incoming log-densities
   A "Pert" line records two runs that agree in one batch element only.
   A "Lin" line records the exact (integer) Jacobian matrix of a linear layer
   whose volume is a power of two: TLC computes the determinant itself.     *)
EXTENDS TraceLib
VARIABLES l, bad
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == l = 1 /\ bad = <<>>

Diff(s, t) == [i \in 1..Len(s) |-> s[i] - t[i]]
Neg(s) == [i \in 1..Len(s) |-> 0 - s[i]]
Obeys(ldi, ldo, slog, tol) == /\ Len(ldi) = Len(ldo) /\ Len(ldo) = Len(slog)
                              /\ AllFin(ldi) /\ AllFin(ldo) /\ AllFin(slog)
                              /\ CloseSeq(Diff(ldo, ldi), Neg(slog), tol)
Vol == /\ e.ev = "Vol"
       /\ Note(<< <<"log-density-changes-by-minus-log-det", Obeys(e.ldi, e.ldo, e.slog, e.tol)>>,
                  <<"same-change-for-any-incoming-log-density", Obeys(e.ldi2, e.ldo2, e.slog, e.tol)>>,
                  <<"one-log-density-per-batch-element", e.ldshape = e.batch>> >>)
Pert == /\ e.ev = "Pert"
        /\ Note(<< <<"point-independent-of-other-elements", CloseSeq(e.x1, e.x2, e.tol)>>,
                   <<"log-density-independent-of-other-elements", CloseSeq(e.ld1, e.ld2, e.tol)>> >>)

(* Laplace expansion over integers *)
Minor(A, j) == LET n == Len(A) IN
  [r \in 1..(n-1) |-> [c \in 1..(n-1) |-> A[r+1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE LET n == Len(A)
                   Term(j) == (IF j % 2 = 1 THEN 1 ELSE 0 - 1) * A[1][j] * Det(Minor(A, j))
               IN SumSeq([j \in 1..n |-> IF A[1][j] = 0 THEN 0 ELSE Term(j)])
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* |det J| = 2^(-k) where ldo - ldi = k log 2; J is scaled by 2^sc *)
Lin == /\ e.ev = "Lin"
       /\ LET d == Abs(Det(e.jac)) IN
          Note(<< <<"determinant-of-the-layer-is-exactly-undone", e.k \in (0-40)..40 /\ d # 0 /\
                     LET pw == Len(e.jac) * e.sc - e.k IN pw >= 0 /\ pw <= 29 /\ d = Pow2(pw)>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Vol \/ Pert \/ Lin \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
