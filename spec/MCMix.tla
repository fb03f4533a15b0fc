------------------------------- MODULE MCMix -------------------------------
(* Building mixtures component by component, and rewriting them into equal ones. *)
EXTENDS Mixture, FiniteSets, TLC, Json
vars == <<kind, n, comps, phase, base>>
Spec == MInit /\ [][MNext]_vars
Grid == {0 - 5, 0 - 3, 0 - 1, 1, 3, 5}
Pts == Vecs(Grid, n)
Ab(a) == IF a < 0 THEN 0 - a ELSE a
(* rewriting a mixture does not change its normalised density *)
SameDensity == phase = "done" => \A z \in Pts :
   IF kind = "box" THEN Boxes(comps, z) * WSum(base) = Boxes(base, z) * WSum(comps)
   ELSE Ab(((Gauss(comps, z, 0) \div 64) * WSum(base)) - ((Gauss(base, z, 0) \div 64) * WSum(comps))) <= 4 * (WSum(base) + WSum(comps))
(* boxes carry exactly their weight: every odd quarter is a cell of length 1/2 *)
OneD == {(2 * k) + 1 : k \in -20..20}
RECURSIVE SumOver(_, _)
SumOver(S, cs) == IF S = {} THEN 0 ELSE LET z == CHOOSE y \in S : TRUE IN Boxes(cs, <<z>>) + SumOver(S \ {z}, cs)
Normalised == (kind = "box" /\ n = 1 /\ phase = "done") => SumOver(OneD, comps) = 2 * WSum(comps)
(* the mixture lies between its largest summand and the sum of all *)
Bounded == (phase = "done" /\ kind # "box") => \A z \in Pts : \A k \in DOMAIN comps :
   /\ Gauss(<<comps[k]>>, z, 0) <= Gauss(comps, z, 0)
   /\ Gauss(comps, z, 0) <= (4194304 * WSum(comps) * (CHOOSE d \in {Det(comps[j]) : j \in DOMAIN comps} : \A j \in DOMAIN comps : Det(comps[j]) <= d))
(* factoring out the nearest component's exponent is exact up to rounding *)
Factored == (phase = "done" /\ kind # "box" /\ Len(Live(comps)) > 0) => \A z \in Pts : LET N0 == LeastN(Live(comps), z) IN
   N0 < 160 => Ab(FMul(Gauss(comps, z, N0) \div 16, Exp(N0)) - (Gauss(comps, z, 0) \div 16)) <= 16 + (8 * WSum(comps))
ExpHom == \A a, b \in 0..40 : Ab(FMul(Exp(a), Exp(b)) - Exp(a + b)) <= 8
LnHom == \A a \in 1..5, b \in 1..5 : Ab(LNT[a] + LNT[b] - LNT[a * b]) <= 2
Sane == ExpHom /\ LnHom
ASSUME Sane
Gen == (phase = "done" /\ comps = base) => PrintT("CASE " \o ToJson([kind |-> kind, n |-> n, comps |-> comps]))
=============================================================================
