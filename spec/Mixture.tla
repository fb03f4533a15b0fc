------------------------------- MODULE Mixture ------------------------------
(* Finite mixtures with exact data.

   A component has an integer weight w, a centre m (quarters), and the inverse
   A of its scale factor, lower triangular with powers of two on the diagonal,
   so that a point z (quarters) whitens to integers u = A (z - m) (quarters).
   A Gaussian component has density 2^e exp(-N/32) (2 pi)^(-n/2) with
   N = |u|^2; a box component has density 2^e where 0 < u < 4.              *)
EXTENDS Integers, Sequences
CONSTANTS Dims, Weights, Centres, Diags, Offs, MaxComp
VARIABLES kind, n, comps, phase, base

T1 == <<4194304, 1542998, 567637, 208822, 76821, 28261, 10397, 3825, 1407, 518, 190, 70, 26, 9, 3, 1>>
T2 == <<4194304, 4065259, 3940184, 3818957, 3701460, 3587578, 3477200, 3370218, 3266527, 3166027, 3068618, 2974207, 2882700, 2794009, 2708046, 2624728, 2543974, 2465704, 2389842, 2316315, 2245049, 2175976, 2109028, 2044141, 1981249, 1920292, 1861211, 1803948, 1748446, 1694652, 1642513, 1591978>>
LNT == <<0, 726817, 1151978, 1453635, 1687618, 1878796, 2040435, 2180452, 2303957, 2414435, 2514375, 2605613, 2689544, 2767252, 2839596, 2907270, 2970840, 3030774, 3087468, 3141253, 3192413, 3241193, 3287804, 3332431, 3375236, 3416362, 3455935, 3494070, 3530866, 3566414, 3600797, 3634087, 3666354, 3697657, 3728053, 3757592, 3786322, 3814286, 3841523, 3868070, 3893963, 3919231, 3943904, 3968010, 3991575, 4014621, 4037172, 4059248, 4080869, 4102053, 4122818, 4143179, 4163153, 4182753, 4201993, 4220887, 4239447, 4257683, 4275608, 4293231, 4310564, 4327614, 4344392, 4360905, 4377162, 4393171, 4408940, 4424475, 4439782, 4454870, 4469744, 4484409, 4498873, 4513139, 4527214, 4541103, 4554810, 4568340, 4581698, 4594888, 4607914, 4620780, 4633490, 4646048, 4658457, 4670722, 4682844, 4694828, 4706676, 4718392, 4729979, 4741439, 4752775, 4763990, 4775086, 4786066, 4796932, 4807687, 4818332, 4828871, 4839305, 4849635, 4859866, 4869997, 4880031, 4889970, 4899816, 4909570, 4919235, 4928811, 4938300, 4947705, 4957025, 4966264, 4975422, 4984501, 4993501, 5002425, 5011274, 5020049, 5028751, 5037381, 5045941, 5054432, 5062854, 5071209, 5079498, 5087722, 5095883, 5103980, 5112015, 5119989, 5127903, 5135757, 5143553, 5151292, 5158974, 5166600, 5174171, 5181688, 5189151, 5196561, 5203920, 5211227, 5218484, 5225690, 5232848, 5239957, 5247018, 5254032, 5260999, 5267921, 5274796, 5281628, 5288415, 5295158, 5301858, 5308516, 5315131, 5321705>>
FMul(a, b) == LET a1 == a \div 2048 a0 == a % 2048 b1 == b \div 2048 b0 == b % 2048 IN (a1 * b1) + (((a1 * b0) + (a0 * b1)) \div 2048)
Exp(k) == IF k >= 512 THEN 0 ELSE FMul(T1[(k \div 32) + 1], T2[(k % 32) + 1])       \* 2^22 exp(-k/32)

RECURSIVE Dot(_, _, _)
Dot(r, v, j) == IF j = 0 THEN 0 ELSE (r[j] * v[j]) + Dot(r, v, j - 1)
Whiten(c, z) == [i \in DOMAIN z |-> Dot(c.A[i], [j \in DOMAIN z |-> z[j] - c.m[j]], i)]
Norm2(u) == Dot(u, u, Len(u))
RECURSIVE Lg(_)
Lg(a) == IF a <= 1 THEN 0 ELSE 1 + Lg(a \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE DetN(_, _)
DetN(A, i) == IF i = 0 THEN 1 ELSE A[i][i] * DetN(A, i - 1)
Det(c) == DetN(c.A, Len(c.m))
RECURSIVE WSum(_)
WSum(cs) == IF cs = <<>> THEN 0 ELSE Head(cs).w + WSum(Tail(cs))
Inside(c, z) == LET u == Whiten(c, z) IN \A i \in DOMAIN u : u[i] > 0 /\ u[i] < 4
Live(cs) == SelectSeq(cs, LAMBDA c : c.w > 0)
RECURSIVE LeastN(_, _)
LeastN(cs, z) == LET a == Norm2(Whiten(Head(cs), z)) IN
   IF Len(cs) = 1 THEN a ELSE LET b == LeastN(Tail(cs), z) IN IF a < b THEN a ELSE b
(* total weight times density times exp(N0/32), in units 2^-22 *)
RECURSIVE Gauss(_, _, _)
Gauss(cs, z, N0) == IF cs = <<>> THEN 0 ELSE
   LET c == Head(cs) N == Norm2(Whiten(c, z)) - N0 IN
   (IF c.w = 0 THEN 0 ELSE c.w * Det(c) * Exp(N)) + Gauss(Tail(cs), z, N0)
RECURSIVE Boxes(_, _)
Boxes(cs, z) == IF cs = <<>> THEN 0 ELSE
   (IF Inside(Head(cs), z) THEN Head(cs).w * Det(Head(cs)) ELSE 0) + Boxes(Tail(cs), z)

(* ------------------------------------------------ building and reshaping *)
Vecs(S, k) == [1..k -> S]
Low(k) == (k * (k - 1)) \div 2
Tri(k, d, o) == [i \in 1..k |-> [j \in 1..k |-> IF i = j THEN d[i] ELSE IF j > i \/ kind # "full" THEN 0 ELSE o[Low(i - 1) + j]]]
Last == comps[Len(comps)]
Whole == comps # <<>> /\ Last.A # <<>>
Place == /\ phase = "build" /\ (comps = <<>> \/ Whole) /\ Len(comps) < MaxComp
         /\ \E w \in Weights, m \in Vecs(Centres, n) : comps' = Append(comps, [w |-> w, m |-> m, A |-> <<>>])
         /\ UNCHANGED <<kind, n, phase, base>>
Widen == /\ phase = "build" /\ comps # <<>> /\ ~Whole
         /\ \E d \in Vecs(Diags, n), o \in Vecs(Offs, IF kind = "full" THEN Low(n) ELSE 0) : comps' = [comps EXCEPT ![Len(comps)].A = Tri(n, d, o)]
         /\ UNCHANGED <<kind, n, phase, base>>
Close == /\ phase = "build" /\ Whole /\ WSum(comps) > 0
         /\ phase' = "done" /\ base' = comps /\ UNCHANGED <<kind, n, comps>>
Front(s, k) == SubSeq(s, 1, k)
Back(s, k) == SubSeq(s, k + 1, Len(s))
Split == /\ phase = "done" /\ comps = base
         /\ \E k \in DOMAIN comps : comps[k].w % 2 = 0
              /\ comps' = Front(comps, k - 1) \o <<[comps[k] EXCEPT !.w = @ \div 2], [comps[k] EXCEPT !.w = @ \div 2]>> \o Back(comps, k)
         /\ UNCHANGED <<kind, n, phase, base>>
Swap == /\ phase = "done" /\ comps = base
        /\ \E k \in 2..Len(comps) : comps' = Front(comps, k - 2) \o <<comps[k], comps[k - 1]>> \o Back(comps, k)
        /\ UNCHANGED <<kind, n, phase, base>>
Rescale == /\ phase = "done" /\ comps = base /\ comps' = [k \in DOMAIN comps |-> [comps[k] EXCEPT !.w = 3 * @]]
           /\ UNCHANGED <<kind, n, phase, base>>
MInit == kind \in {"full", "diag", "box"} /\ n \in Dims /\ comps = <<>> /\ phase = "build" /\ base = <<>>
MNext == Place \/ Widen \/ Close \/ Split \/ Swap \/ Rescale
=============================================================================
