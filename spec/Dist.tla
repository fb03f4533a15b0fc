-------------------------------- MODULE Dist --------------------------------
(* A distribution as its users see it: a history of draws and scores.

   A draw with an explicit key is a function of the key and the batch shape
   alone.  A draw from the distribution's own generator is a function of the
   generator's seed and of the shapes drawn from it so far.  A copy made with
   the same seed starts that history anew.  Scoring changes nothing.

   Densities are exact integers: Q counts -1/2, E counts -log 2 and N counts
   -log(2 pi)/2.                                                              *)
EXTENDS Integers, Sequences
CONSTANTS Keys, Shapes, Seeds, MaxCalls
VARIABLES drawn, seed, calls, seen

Hist == <<drawn, seed, calls, seen>>
KeyTok(k, b) == [key |-> k, shapes |-> <<b>>, own |-> FALSE]
OwnTok(b) == [key |-> seed, shapes |-> Append(drawn, b), own |-> TRUE]
Start(s) == drawn = <<>> /\ seed = s /\ calls = <<>> /\ seen = <<>>
HInit == \E s \in Seeds : Start(s)
Log(c, t) == calls' = Append(calls, c) /\ seen' = Append(seen, t)
NoTok == [key |-> 0, shapes |-> <<>>, own |-> FALSE]
Draw(k, b) == Log([op |-> "key", k |-> k, b |-> b], KeyTok(k, b)) /\ UNCHANGED <<drawn, seed>>
Own(b) == Log([op |-> "own", k |-> 0, b |-> b], OwnTok(b)) /\ drawn' = Append(drawn, b) /\ UNCHANGED seed
Copy(s) == Log([op |-> "copy", k |-> s, b |-> 0], NoTok) /\ drawn' = <<>> /\ seed' = s
Score == Len(calls) > 0 /\ Log([op |-> "score", k |-> 0, b |-> 0], NoTok) /\ UNCHANGED <<drawn, seed>>
HNext == Len(calls) < MaxCalls /\ ((\E b \in Shapes : Own(b) \/ \E k \in Keys : Draw(k, b)) \/ (\E s \in Seeds : Copy(s)) \/ Score)

(* --------------------------------------------------------------- densities *)
RECURSIVE Sub(_, _, _, _)                      \* w with L w = z - mean, row by row
Sub(L, z, mean, i) == IF i = 0 THEN <<>> ELSE
   LET w == Sub(L, z, mean, i - 1)
       RECURSIVE Dot(_)
       Dot(j) == IF j = 0 THEN 0 ELSE L[i][j] * w[j] + Dot(j - 1)
   IN Append(w, (z[i] - mean[i] - Dot(i - 1)) \div L[i][i])
RECURSIVE Mul(_, _, _, _)
Mul(L, w, mean, i) == IF i = 0 THEN <<>> ELSE
   LET RECURSIVE Dot(_)
       Dot(j) == IF j = 0 THEN 0 ELSE L[i][j] * w[j] + Dot(j - 1)
   IN Append(Mul(L, w, mean, i - 1), mean[i] + Dot(i))
RECURSIVE SqN(_, _)
SqN(w, n) == IF n = 0 THEN 0 ELSE w[n] * w[n] + SqN(w, n - 1)
RECURSIVE Log2(_)
Log2(a) == IF a <= 1 THEN 0 ELSE 1 + Log2(a \div 2)
RECURSIVE DiagN(_, _)
DiagN(L, n) == IF n = 0 THEN 0 ELSE Log2(L[n][n]) + DiagN(L, n - 1)
RECURSIVE InN(_, _, _)
InN(z, hi, n) == n = 0 \/ (z[n] > 0 /\ z[n] < hi /\ InN(z, hi, n - 1))
(* normal with mean and lower triangular factor; z and mean in the same unit as L *)
Normal(mean, L, z) == LET n == Len(z) IN [inside |-> TRUE, q |-> SqN(Sub(L, z, mean, n), n), e |-> DiagN(L, n), n |-> n]
Uniform(hi, z) == [inside |-> InN(z, hi, Len(z)), q |-> 0, e |-> 0, n |-> 0]
=============================================================================
