-------------------------------- MODULE Mono --------------------------------
(* Strictly monotone maps of one variable, computed exactly.

   Families: at arguments that are logarithms (or other elementary functions)
   of fractions k/m the library's elementwise maps have rational values.

   Splines: knots xs, ys in units of 1/T, slopes ds in sixteenths, points X in
   units of 1/(8T).  Values are fixed point with 24 fractional bits.          *)
EXTENDS Integers, Sequences
CONSTANT T
N1(x) == 0 - x
Ab(x) == IF x < 0 THEN N1(x) ELSE x
RECURSIVE Fr(_, _, _, _)
Fr(r, d, b, acc) == IF b = 0 THEN acc ELSE Fr((2 * r) % d, d, b - 1, (2 * acc) + ((2 * r) \div d))
FixDiv(n, d, b) == IF n < 0 THEN N1(Fr(N1(n) % d, d, b, N1(n) \div d)) ELSE Fr(n % d, d, b, n \div d)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)

(* ---------------------------------------------------------------- families *)
Families == {"sigmoid", "tanh", "exp", "softplus", "sinh", "tan", "gauss", "beta", "power", "root", "affine", "shift", "scale",
             "cubrat", "sinhc", "cubconj", "ray"}
(* positive chains only for maps whose arguments are logarithms *)
PosChain == <<<<1, 9>>, <<1, 4>>, <<1, 2>>, <<2, 3>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<4, 1>>, <<9, 1>>>>
AllChain == <<<<N1(9), 1>>, <<N1(4), 1>>, <<N1(2), 1>>, <<N1(3), 2>>, <<N1(1), 1>>, <<N1(1), 3>>, <<0, 1>>, <<1, 3>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<4, 1>>, <<9, 1>>>>
Chain(f) == IF f \in {"tan", "affine", "shift", "scale", "cubrat", "cubconj"} THEN AllChain ELSE PosChain
P3(S, R, U) == {<<a, b, c>> : a \in S, b \in R, c \in U}
Z1 == {1}
Params(f) ==
  CASE f \in {"beta", "power", "root"} -> P3(1..4, Z1, Z1)
    [] f = "affine" -> P3({N1(3), N1(1), 1, 2}, {1, 3}, {N1(2), 0, 1})
    [] f = "shift" -> P3(Z1, Z1, {N1(2), 0, 3})
    [] f = "scale" -> P3({N1(3), 1, 5}, {1, 2}, Z1)
    [] f = "cubrat" -> P3({0, 1, 5, 7}, {1, 3}, {N1(1), 0, 2})
    [] f = "sinhc" -> P3({1, 2, 3}, {1, 4}, {N1(2), 0, 1})
    [] f = "cubconj" -> P3({1, 2, 5}, {1, 3}, {N1(7), 0, 4})
    [] OTHER -> {<<1, 1, 1>>}
Norm(r) == IF r[2] < 0 THEN <<N1(r[1]), N1(r[2])>> ELSE r
Val(f, p, k, m) == Norm(
  CASE f = "sigmoid" -> <<k, k + m>>
    [] f = "tanh" -> <<k - m, k + m>>
    [] f = "exp" -> <<k, m>>
    [] f = "softplus" -> <<k + m, m>>                         \* of which the log is returned
    [] f = "sinh" -> <<(k * k) - (m * m), 2 * k * m>>
    [] f \in {"tan", "root", "ray"} -> <<k, m>>
    [] f = "gauss" -> <<k, k + m>>
    [] f = "beta" -> <<Pow(k, p[1]), Pow(k, p[1]) + Pow(m, p[1])>>
    [] f = "power" -> <<Pow(k, p[1]), Pow(m, p[1])>>
    [] f = "affine" -> <<(p[1] * k) + (p[3] * p[2] * m), p[2] * m>>
    [] f = "shift" -> <<k + (p[3] * m), m>>
    [] f = "scale" -> <<p[1] * k, p[2] * m>>
    [] f = "cubrat" -> <<(k * ((m * m) + (p[2] * k * k))) + (p[1] * k * m * m), m * ((m * m) + (p[2] * k * k))>>    \* less the location
    [] f = "sinhc" -> <<p[1] * ((p[2] * ((k * k) - (m * m))) + (2 * k * m * p[3])), 2 * k * m>>                      \* sinh of the result
    [] f = "cubconj" -> <<(p[1] * k * m * m) + (p[2] * k * k * k) + (p[3] * m * m * m), m * m * m>>)                 \* a y + b y^3 of the result y
Rising(f, p) == ~(f \in {"affine", "scale"} /\ p[1] < 0)
Before(r, s) == r[1] * s[2] < s[1] * r[2]
(* stated ranges, as fractions *)
Bounded(f) == f \in {"sigmoid", "tanh", "gauss", "beta"}
LowEnd(f) == IF f = "tanh" THEN <<N1(1), 1>> ELSE <<0, 1>>
HasLow(f) == Bounded(f) \/ f \in {"exp", "power", "root"}

(* ----------------------------------------------------------------- splines *)
Bins(s) == Len(s.xs) - 1
Bin(s, X) == CHOOSE k \in 1..Bins(s) : 8 * s.xs[k] <= X /\ (X < 8 * s.xs[k + 1] \/ (k = Bins(s) /\ X = 8 * T))
Full == 16777216                              \* 2^24
At(s, X) == IF X < 0 \/ X > 8 * T THEN X * (Full \div (8 * T)) ELSE
  LET k == Bin(s, X)
      w == s.xs[k + 1] - s.xs[k]
      h == s.ys[k + 1] - s.ys[k]
      q == 8 * w
      p == X - (8 * s.xs[k])
      n == (16 * h * p * p) + (s.ds[k] * w * p * (q - p))
      d == (16 * h * q * q) + ((s.ds[k] + s.ds[k + 1]) * w * p * (q - p)) - (32 * h * p * (q - p))
  IN (s.ys[k] * (Full \div T)) + ((h * FixDiv(n, d, 24)) \div T)
(* slope in the middle of a bin, 20 bits; at knots it is ds/16 *)
MidSlope(s, k) == LET w == s.xs[k + 1] - s.xs[k] h == s.ys[k + 1] - s.ys[k] IN
  FixDiv(64 * h * h, w * ((32 * h) + (w * (s.ds[k] + s.ds[k + 1]))), 20)
Mirror(s) == [xs |-> [i \in 1..Len(s.xs) |-> T - s.xs[Len(s.xs) + 1 - i]], ys |-> [i \in 1..Len(s.xs) |-> T - s.ys[Len(s.xs) + 1 - i]],
              ds |-> [i \in 1..Len(s.xs) |-> s.ds[Len(s.xs) + 1 - i]]]
=============================================================================
