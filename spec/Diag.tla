-------------------------------- MODULE Diag --------------------------------
(* Importance samples and what is reported about them, and a sliding window.

   A sample is [m, k, t, s]: its weight p/q is m 2^k times the normalisations
   pn and qn that were applied to the two densities since (as logarithms, in
   quarters), and t, s are its log-densities under p and q for the divergence,
   in quarters.  The window machine keeps the sum of the last `win` values.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ms, Ks, Logs, Norms, Vals, Wins, MaxN, MaxX
VARIABLES smp, pn, qn, last, win, xs, sum, outs
dvars == <<smp, pn, qn, last, win, xs, sum, outs>>
RECURSIVE Pw2(_)
Pw2(k) == IF k = 0 THEN 1 ELSE 2 * Pw2(k - 1)
RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumF(Tail(s))
Top(s) == CHOOSE k \in {s[i].k : i \in DOMAIN s} : \A i \in DOMAIN s : s[i].m > 0 => s[i].k <= k
(* weights relative to the largest power; what lies more than 2^-40 below does not count *)
Rel(s) == LET K == Top(SelectSeq(s, LAMBDA a : a.m > 0)) L == SelectSeq(s, LAMBDA a : a.m > 0 /\ a.k > K - 40)
              B == CHOOSE k \in {L[i].k : i \in DOMAIN L} : \A i \in DOMAIN L : L[i].k >= k
          IN [i \in DOMAIN L |-> L[i].m * Pw2(L[i].k - B)]
Live(s) == \E i \in DOMAIN s : s[i].m > 0
S1(s) == SumF(Rel(s))
S2(s) == LET r == Rel(s) IN SumF([i \in DOMAIN r |-> r[i] * r[i]])
(* effective sample size per sample: S1^2 / (n S2) *)
EssNum(s) == S1(s) * S1(s)
EssDen(s) == Len(s) * S2(s)
(* n times the divergence of q from p, in quarters *)
DklN(s, p, o) == SumF([i \in DOMAIN s |-> (s[i].s + o) - (s[i].t + p)])
DInit == smp = <<>> /\ pn = 0 /\ qn = 0 /\ last = "new" /\ win \in Wins /\ xs = <<>> /\ sum = 0 /\ outs = <<>>
Draw == Len(smp) < MaxN /\ (\E m \in Ms, k \in Ks, t, s \in Logs : smp' = Append(smp, [m |-> m, k |-> k, t |-> t, s |-> s])) /\ last' = "draw" /\ UNCHANGED <<pn, qn, win, xs, sum, outs>>
NormP == (\E c \in Norms : pn' = c) /\ last' = "norm" /\ UNCHANGED <<smp, qn, win, xs, sum, outs>>
NormQ == (\E c \in Norms : qn' = c) /\ last' = "norm" /\ UNCHANGED <<smp, pn, win, xs, sum, outs>>
Swap(i, j) == [a \in DOMAIN smp |-> IF a = i THEN smp[j] ELSE IF a = j THEN smp[i] ELSE smp[a]]
Permute == Len(smp) > 1 /\ (\E i, j \in DOMAIN smp : i < j /\ smp' = Swap(i, j)) /\ last' = "swap" /\ UNCHANGED <<pn, qn, win, xs, sum, outs>>
Twice == smp # <<>> /\ 2 * Len(smp) <= MaxN /\ smp' = smp \o smp /\ last' = "twice" /\ UNCHANGED <<pn, qn, win, xs, sum, outs>>
(* the window: a value enters, the oldest leaves once the window is full *)
Push == /\ Len(xs) < MaxX
        /\ \E v \in Vals : LET full == Len(xs) >= win  s == (sum + v) - (IF full THEN xs[(Len(xs) - win) + 1] ELSE 0) IN
             xs' = Append(xs, v) /\ sum' = s /\ outs' = IF Len(xs) + 1 >= win THEN Append(outs, s) ELSE <<>>
        /\ last' = "push" /\ UNCHANGED <<smp, pn, qn, win>>
DNext == Draw \/ NormP \/ NormQ \/ Permute \/ Twice \/ Push
(* moving averages: numerators and the denominator *)
Averages(x, w) == IF Len(x) < w THEN <<SumF(x)>> ELSE [i \in 1..((Len(x) - w) + 1) |-> SumF(SubSeq(x, i, (i + w) - 1))]
Divisor(x, w) == IF Len(x) < w THEN Len(x) ELSE w
=============================================================================
