------------------------------ MODULE ObsTrace ------------------------------
(* Judges recorded observables of integer fields: exact sums.                *)
EXTENDS TraceLib
VARIABLES l, bad
O == INSTANCE Observables
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == l = 1 /\ bad = <<>>
G == [p |-> e.p, s |-> e.s, t |-> e.t]
Local == /\ e.ev = "Local"
   /\ Note(<< <<"kinetic-density", e.kin = O!Kin(e.L, e.f)>>,
              <<"phi4-density", e.phi4 = O!Phi4(e.L, e.f, e.m2, e.lam)>>,
              <<"free-density", e.free = O!Phi4(e.L, e.f, e.m2, 0)>>,
              <<"hopping-density", e.hop = O!Hop(e.L, e.f, e.kap, e.lam)>>,
              <<"free-hopping-density", e.hop0 = O!Hop(e.L, e.f, e.kap, 0)>>,
              <<"polynomial-density", e.poly = O!Poly(e.f, e.c, FALSE) /\ e.epoly = O!Poly(e.f, e.c, TRUE)>>,
              <<"shapes", e.shapes = <<e.L, e.L, e.L, e.L, e.L, e.L, e.L>> >> >>)
Act == /\ e.ev = "Act"     \* the same field moved by a lattice symmetry
   /\ LET sameField == e.gf = O!Moved(e.L, G, e.f)
          A1 == O!SumQ(O!Phi4(e.L, e.f, e.m2, e.lam)) A2 == O!SumQ(O!Hop(e.L, e.f, e.kap, e.lam)) IN
      Note(<< <<"field-moved", sameField>>,
              <<"action-invariant", e.a = <<A1, A2>> /\ e.ga = <<A1, A2>> >> >>)
Correlate == /\ e.ev = "Corr"
   /\ Note(<< <<"cyclic-correlation", e.corr = O!Corr(e.L, e.f, e.h)>>,
              <<"correlation-tensor", e.tens = O!Tensor(e.L, e.f, e.h)>>,
              <<"correlation-of-a-tensor", e.cmat = O!CorrMat(e.L, e.T)>>,
              <<"shapes", e.shapes = <<e.L, e.L \o e.L, e.L>> >> >>)
TwoPt == /\ e.ev = "Two"
   /\ LET B == Len(e.fs) IN
      Note(<< <<"two-point-function", e.two = O!Two(e.L, e.fs)>>,
              <<"per-sample-correlations", e.each = [s \in 1..B |-> O!Corr(e.L, e.fs[s], e.fs[s])]>>,
              <<"connected-two-point-function", e.con = O!TwoC(e.L, e.fs)>>,
              <<"moves-along", e.gcon = O!Moved(e.L, O!Point(G), O!TwoC(e.L, e.fs)) /\ e.gtwo = O!Moved(e.L, O!Point(G), O!Two(e.L, e.fs))>> >>)
(* 1 / log b in fixed point *)
InvLog(b) == IF b = 2 THEN 1512775 ELSE IF b = 3 THEN 954456 ELSE IF b = 4 THEN 756388 ELSE 651520
Length == /\ e.ev = "Length" /\ Note(<< <<"correlation-length-of-a-pure-decay", Close(e.xi, InvLog(e.base), 60)>> >>)
Rolled == /\ e.ev = "Roll"
   /\ Note(<< <<"field-rolled-into-position", e.out = [k \in 1..O!NS(e.L) |-> [c \in DOMAIN e.f[1] |->
        O!V(e.L, e.f, [a \in 1..Len(e.L) |-> (O!CX(e.L, k)[a] + (IF a <= Len(e.loc) THEN (IF e.invert THEN 0 - e.loc[a] ELSE e.loc[a]) ELSE 0)) % e.L[a]])[c]]]>> >>)
Free == /\ e.ev = "Free"
   /\ Note(<< <<"free-action-of-scaled-noise", Close(e.S, IF e.half THEN e.xx ELSE e.xx \div 2, 64) /\ e.S > 0>> >>)
Mapped == /\ e.ev = "Mapped"
   /\ Note(<< <<"batch-is-computed-field-by-field", e.out = [b \in DOMAIN e.fs |-> O!Phi4(e.L, e.fs[b], e.m2, e.lam)]>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Local \/ Act \/ Correlate \/ TwoPt \/ Length \/ Rolled \/ Free \/ Mapped \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
