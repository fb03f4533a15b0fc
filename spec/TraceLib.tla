------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications.

   Reals are projected to fixed point (units of 2^-20 unless a line says
   otherwise), because TLC has 32-bit integers.  Values outside the projected
   range and non-finite values are markers that compare equal only to
   themselves; NaN compares equal to nothing.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

Lim  == 268435456            \* 2^28
NaN  == 2000000001
Inf  == 2000000002
NInf == 0 - 2000000002
Unit == 1048576              \* 2^20

IsFin(a) == a <= Lim /\ a >= (0 - Lim)
Abs(a)   == IF a < 0 THEN 0 - a ELSE a
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Close(a, b, tol) == IF IsFin(a) /\ IsFin(b) THEN Abs(a - b) <= tol
                    ELSE a = b /\ a # NaN
CloseSeq(s, t, tol) == /\ Len(s) = Len(t)
                       /\ \A i \in DOMAIN s : Close(s[i], t[i], tol)
AllFin(s) == \A i \in DOMAIN s : IsFin(s[i])
NoNaN(s)  == \A i \in DOMAIN s : s[i] # NaN
EqSeq(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : s[i] = t[i] /\ s[i] # NaN

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Range(s) == {s[i] : i \in DOMAIN s}
Has(e, f) == f \in DOMAIN e

(* A verdict is a sequence of <<clause name, holds>>; every clause of every
   line is evaluated, the failing ones are collected with their line.       *)
FailedAt(ln, cl) == LET F == SelectSeq(cl, LAMBDA c : ~c[2])
                    IN [i \in 1..Len(F) |-> [line |-> ln, clause |-> F[i][1]]]
Report(bad) == PrintT("VERDICT " \o ToJson([consumed |-> Len(Trace), bad |-> bad]))
=============================================================================
