------------------------------- MODULE MCObs --------------------------------
EXTENDS Lattice
O == INSTANCE Observables
F(s) == [k \in 1..Prod0(L) |-> (((s + k) * (k + 3) * 7) % 9) - 4]
ActionsInvariant == LET f == F(1) h == O!Moved(L, g, f) IN
   /\ O!SumQ(O!Phi4(L, f, 3, 2)) = O!SumQ(O!Phi4(L, h, 3, 2))
   /\ O!SumQ(O!Hop(L, f, 2, 1)) = O!SumQ(O!Hop(L, h, 2, 1))
   /\ O!SumQ(O!Poly(f, <<1, 2, 3>>, FALSE)) = O!SumQ(O!Poly(h, <<1, 2, 3>>, FALSE))
CorrelatorsMoveAlong == LET f == F(2) q == F(5) IN
   /\ O!Corr(L, O!Moved(L, g, f), O!Moved(L, g, q)) = O!Moved(L, O!Point(g), O!Corr(L, f, q))
   /\ O!TwoC(L, <<O!Moved(L, g, f), O!Moved(L, g, q)>>) = O!Moved(L, O!Point(g), O!TwoC(L, <<f, q>>))
TensorForms == word = <<>> => LET f == F(2) q == F(5) IN
   /\ [k \in 1..Prod0(L) |-> O!SumQ(O!Tensor(L, f, q)[k])] = O!Corr(L, f, q)
   /\ O!CorrMat(L, [j \in 1..Prod0(L) |-> [i \in 1..Prod0(L) |-> f[j] * q[i]]]) = O!Corr(L, f, q)
ConnectedVanishes == word = <<>> => \A k \in 1..Prod0(L) : O!TwoC(L, <<F(1)>>)[k] = 0
Sizes == {<<1>>, <<2>>, <<3>>, <<5>>, <<2, 2>>, <<3, 3>>, <<2, 3>>, <<3, 2, 2>>, <<2, 2, 2>>, <<1, 4>>}
=============================================================================
