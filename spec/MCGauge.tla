------------------------------ MODULE MCGauge -------------------------------
(* Walks of symmetry operations on fields valued in the quaternion group,
   embedded in SU(2) as matrices of Gaussian integers.                       *)
EXTENDS Gauge
CONSTANTS MaxLen, Seeds, Sizes
VARIABLES L, U, U0, L0, g, word, gauged
Q1 == <<<<<<1, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<1, 0>>>>>>
QI == <<<<<<0, 1>>, <<0, 0>>>>, <<<<0, 0>>, <<0, 0 - 1>>>>>>
QJ == <<<<<<0, 0>>, <<1, 0>>>>, <<<<0 - 1, 0>>, <<0, 0>>>>>>
QK == MMul(QI, QJ)
Neg(A) == [i \in 1..2 |-> [j \in 1..2 |-> <<0 - A[i][j][1], 0 - A[i][j][2]>>]]
Q8 == <<Q1, QI, QJ, QK, Neg(Q1), Neg(QI), Neg(QJ), Neg(QK)>>
Rand(s, k, a) == Q8[((((s + 3) * (k + 7) * (a + 5)) + (k * k * (s + 1)) + (a * 11)) % 8) + 1]
Start(l, s) == FieldOf(l, LAMBDA x, a : Rand(s, La!Lin(l, x), a))
GT(l, s) == [k \in 1..N(l) |-> Rand(s + 5, k, 3)]
Init == \E l \in Sizes : \E s \in Seeds :
          /\ L = l /\ L0 = l /\ U = Start(l, s) /\ U0 = U /\ g = La!Id(l) /\ word = <<>> /\ gauged = FALSE
Step(op) == /\ Len(word) < MaxLen /\ word' = Append(word, op)
            /\ U' = Apply(L, U, op, GT(L, Len(word))) /\ L' = NewL(L, op)
            /\ gauged' = (gauged \/ op[1] = "gauge")
            /\ UNCHANGED <<U0, L0>>
Ids(op) == IF op[1] = "roll" THEN La!TransG(L, op[2] + 1, 0 - op[3])
           ELSE IF op[1] = "flip" THEN La!Then(L, La!FlipG(L, op[2] + 1), La!TransG(L, op[2] + 1, 0 - 1))
           ELSE IF op[1] = "swap" THEN La!SwapG(L, op[2] + 1, op[3] + 1)
           ELSE LET s == La!SwapG(L, op[2] + 1, op[3] + 1) IN
                La!Then(NewL(L, op), s, La!Then(NewL(L, op), La!FlipG(NewL(L, op), op[2] + 1), La!TransG(NewL(L, op), op[2] + 1, 0 - 1)))
Do(op) == Step(op) /\ g' = IF op[1] = "gauge" THEN g ELSE La!Then(NewL(L, op), g, Ids(op))
D == Len(L)
Next == \/ \E a \in 1..D : Do(<<"flip", a - 1, 0>>)
        \/ \E a, b \in 1..D : a # b /\ Do(<<"swap", a - 1, b - 1>>)
        \/ \E a, b \in 1..D : a # b /\ Do(<<"rot", a - 1, b - 1>>)
        \/ \E a \in 1..D : \E n \in {1, 0 - 1, 2} : Do(<<"roll", a - 1, n>>)
        \/ Do(<<"gauge", 0, 0>>)
vs == <<L, U, U0, L0, g, word, gauged>>
Spec == Init /\ [][Next]_vs
ActionInvariant == ActionSum(L, U) = ActionSum(L0, U0)
(* without gauge transformations: the field is the image of the first one
   under the composed lattice symmetry, link by link                         *)
Image == ~gauged => \A k \in 0..(N(L0) - 1) : \A m \in 1..D :
   LET x == X(L0, k) e == Plus(L0, x, Unit(L0, m))
       a == CHOOSE a \in 1..D : g.p[a] = m
       gx == La!Act(L, g, x) ge == La!Act(L, g, e)
   IN IF g.s[a] = 1 THEN At(U, L, gx)[a] = At(U0, L0, x)[m]
      ELSE At(U, L, ge)[a] = Dag(At(U0, L0, x)[m])
StaysInGroup == \A k \in 1..N(L) : \A a \in 1..D : \E i \in 1..8 : U[k][a] = Q8[i]
Gen == (Len(word) = MaxLen) => PrintT("CASE " \o ToJson([L |-> L0, word |-> word]))
MCSizes == {<<2, 2>>, <<2, 3>>, <<3, 3>>, <<2, 2, 2>>, <<3, 1, 2>>, <<4, 2>>}
=============================================================================
