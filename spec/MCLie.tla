-------------------------------- MODULE MCLie --------------------------------
(* Walks of a tuple of group elements by group operations, next to a function
   on them that grows letter by letter.                                      *)
EXTENDS Lie
CONSTANTS Kinds, MaxMoves, MaxLetters, Leaves, Words, GenCases
VARIABLES k, us, S, f, n0, nl
(* generators of finite subgroups, and rational elements of denominator 3 or 5 *)
Mono(x) == IF x \in {"su2", "u2"} THEN {SU2[1], SU2[2], SU2[3]}
           ELSE IF x = "so3" THEN {<<<<o, m, o>>, <<p, o, o>>, <<o, o, p>>>>, <<<<o, o, p>>, <<p, o, o>>, <<o, p, o>>>>}
           ELSE IF x = "u1" THEN {<<<<ii>>>>}
           ELSE {<<<<o, p, o>>, <<o, o, p>>, <<p, o, o>>>>, <<<<ii, o, o>>, <<o, mi, o>>, <<o, o, p>>>>, <<<<o, m, o>>, <<p, o, o>>, <<o, o, p>>>>}
Rat(x) == IF x \in {"su2", "u2"} THEN {<<<<<<1, 2>>, <<0 - 2, 0>>>>, <<<<2, 0>>, <<1, 0 - 2>>>>>>, <<<<<<2, 1>>, <<0, 2>>>>, <<<<0, 2>>, <<2, 0 - 1>>>>>>}
          ELSE IF x = "so3" THEN {<<<<<<2, 0>>, m, <<2, 0>>>>, <<<<2, 0>>, <<2, 0>>, m>>, <<m, <<2, 0>>, <<2, 0>>>>>>}
          ELSE IF x = "u1" THEN {<<<<<<3, 4>>>>>>}
          ELSE {<<<<<<1, 2>>, <<0 - 2, 0>>, o>>, <<<<2, 0>>, <<1, 0 - 2>>, o>>, <<o, o, <<3, 0>>>>>>,
                <<<<<<3, 0>>, o, o>>, <<o, <<2, 1>>, <<0, 2>>>>, <<o, <<0, 2>>, <<2, 0 - 1>>>>>>}
RatS(x) == IF x = "u1" THEN 5 ELSE 3
Ks(x) == LET n == Size(x) real == x = "so3" IN
         <<Mat(n, n, LAMBDA i, j : <<((i * 2 + j) % 3) - 1, IF real THEN 0 ELSE ((i + 2 * j) % 3) - 1>>),
           Mat(n, n, LAMBDA i, j : <<((i * i + j) % 3) - 1, IF real THEN 0 ELSE (i * j) % 2>>)>>
Init == /\ k \in Kinds /\ us = [j \in 1..Leaves |-> One(Size(k))] /\ S = 1 /\ n0 = 0 /\ nl = 0
        /\ f = <<[c |-> 1, fs |-> <<[p |-> "re", w |-> <<<<"u", 1>>>>]>>]>>
Move(j) == \E g \in Mono(k) : us' = [us EXCEPT ![j] = MMul(g, @)] /\ S' = S
Inv(j) == us' = [us EXCEPT ![j] = Dag(@)] /\ S' = S
Deepen == S < 9 /\ \E g \in [1..Leaves -> Rat(k)] : us' = [j \in 1..Leaves |-> MMul(us[j], g[j])] /\ S' = S * RatS(k)
Walk == n0 < MaxMoves /\ n0' = n0 + 1 /\ (Deepen \/ \E j \in 1..Leaves : Move(j) \/ Inv(j)) /\ UNCHANGED <<k, f, nl>>
Letters == ({"u", "h", "t", "c"} \X (1..Leaves)) \cup ({"k"} \X {1, 2})
AddL(l) == LET t == f[Len(f)] fs == t.fs x == Len(fs) IN f' = [f EXCEPT ![Len(f)] = [c |-> t.c, fs |-> [fs EXCEPT ![x] = [p |-> fs[x].p, w |-> Append(fs[x].w, l)]]]]
AddF(l, prt) == Len(f[Len(f)].fs) < 2 /\ LET t == f[Len(f)] IN f' = [f EXCEPT ![Len(f)] = [c |-> t.c, fs |-> Append(t.fs, [p |-> prt, w |-> <<l>>])]]
AddT(l, prt, c) == Len(f) < 3 /\ f' = Append(f, [c |-> c, fs |-> <<[p |-> prt, w |-> <<l>>]>>])
Grow == nl < MaxLetters /\ nl' = nl + 1 /\ Deg(f[Len(f)]) < 4
        /\ (\E l \in Letters : AddL(l) \/ (\E prt \in {"re", "im"} : AddF(l, prt) \/ \E c \in {1, 0 - 2, 3} : AddT(l, prt, c)))
        /\ UNCHANGED <<k, us, S, n0>>
Next == Walk \/ (Words /\ Grow)
vs == <<k, us, S, f, n0, nl>>
Spec == Init /\ [][Next]_vs

D == MaxDeg(f)
KK == Ks(k)
InGroup == \A j \in 1..Leaves : /\ MMul(us[j], Dag(us[j])) = MScale(S * S, One(Size(k)))
                                /\ (Special(k) => Det(us[j]) = <<Pow(S, Size(k)), 0>>)
InAlgebra(A) == Dag(A) = MScale(0 - 1, A) /\ (Special(k) => MTr(A) = o)
G(j) == Grad(k, D1(k, f, us, KK, S, D, j))
(* the gradient is the element of the algebra whose inner product with every
   generator is the derivative along that generator                          *)
GradIsGradient == \A j \in 1..Leaves :
   LET g == G(j) d == D1(k, f, us, KK, S, D, j) IN
   (k # "u1") => InAlgebra(g) /\ \A i \in 1..Dim(k) : MTr(MMul(Dag(Gens(k)[i]), g)) = <<2 * Den(k) * d[i], 0>>
Linear == \A j \in 1..Leaves : \A c \in {[i \in 1..Dim(k) |-> (i % 3) - 1], [i \in 1..Dim(k) |-> i - 2]} :
   FJet(f, us, KK, S, D, {j}, Comb(k, c), FALSE)[2] = LET d == D1(k, f, us, KK, S, D, j) IN ISum([i \in 1..Dim(k) |-> c[i] * d[i]])
(* moving on the right along X is moving on the left along U X U^-1 *)
Sides == \A j \in 1..Leaves : \A i \in 1..Dim(k) :
   LET X == Gens(k)[i] Y == MMul(us[j], MMul(X, Dag(us[j]))) IN
   FJet(f, us, KK, S, D, {j}, Y, FALSE)[2] = S * S * FJet(f, us, KK, S, D, {j}, X, TRUE)[2]
(* moving all elements is the sum of moving each *)
Together == \A i \in 1..Dim(k) : FJet(f, us, KK, S, D, 1..Leaves, Gens(k)[i], FALSE)[2]
   = ISum([j \in 1..Leaves |-> FJet(f, us, KK, S, D, {j}, Gens(k)[i], FALSE)[2]])
(* completeness: the generator sum is the projection of the cotangent *)
Complete == Full(k) => \A j \in 1..Leaves : LET A == KK[1] U == us[j] n == Size(k) d == [i \in 1..Dim(k) |-> MTr(MMul(Trn(A), MMul(Gens(k)[i], U)))[1]] IN
   MScale(n, Grad(k, d)) = MScale(Den(k), ProjCot(A, U))
(* Casimir: the Laplacian of Re tr U *)
Casimir == Full(k) => LET t == <<[c |-> 1, fs |-> <<[p |-> "re", w |-> <<<<"u", 1>>>>]>>]>> n == Size(k) IN
   n * Lap(k, D2(k, t, us, KK, S, 1, 1)) = (0 - 2 * (n * n - 1)) * Den(k) * Val(t, us, KK, S, 1)
ClassFunction == (S = 1 /\ Leaves = 2) => MTr(MMul(us[2], MMul(us[1], Dag(us[2])))) = MTr(us[1])
ASSUME \A n \in {2, 3} : ISum([x \in 1..Pow(6, n - 1) |-> Vander([a \in 1..(n - 1) |-> 2 * (((x - 1) \div Pow(6, a - 1)) % 6)])]) = Pow(6, n - 1) * Fact(n)
Gen == (GenCases /\ n0 + nl = MaxMoves + MaxLetters) => PrintT("CASE " \o ToJson([k |-> k, us |-> us, S |-> S, f |-> f, ks |-> KK]))
=============================================================================
