------------------------------ MODULE MCEmbed -------------------------------
EXTENDS Embed, TLC, Json
Spec == EInit /\ [][ENext]_evars
R == Features(emb, reds, 0)
On == phase # "new"
V == Domain(emb)
Unreduced == On /\ reds = <<>> /\ vals = <<>>
(* piecewise linear: a partition of unity on the range, at most two neighbours at work *)
LinOk == (Unreduced /\ emb.k = "lin") => \A v \in V :
   LET x == Features(emb, <<>>, v) on == {j \in DOMAIN x : x[j] > 0} IN
   /\ Cardinality(on) <= 2 /\ (\A i, j \in on : Ab(i - j) <= 1)
   /\ ((v >= 0 /\ v <= 4 * (emb.n - 1)) => Sum(x) = U)
   /\ ((v <= 0 - 4 \/ v >= 4 * emb.n) => on = {})
   /\ (v % 4 = 0 /\ v >= 0 /\ v < 4 * emb.n => x[(v \div 4) + 1] = U)
(* Fourier: periodic, one circle per frequency *)
FourierOk == (Unreduced /\ emb.k = "fourier") => \A v \in {a \in V : a % 7 = 0 \/ Ab(a) < 4} :
   LET x == Features(emb, <<>>, v) m == (emb.n - 1) \div 2 IN
   /\ x = Features(emb, <<>>, v + 120) /\ Len(x) = (2 * m) + 1
   /\ \A f \in 1..m : Ab(((x[f] \div 4) * (x[f] \div 4)) + ((x[m + f] \div 4) * (x[m + f] \div 4)) - 268435456) < 131072
(* the normalised Gaussians share one, the plain ones peak at their positions; mirrored arguments mirror the features *)
GaussOk == (Unreduced /\ emb.k = "gauss") => \A v \in V \cup Far(emb) :
   LET x == Features(emb, <<>>, v) IN
   /\ (emb.norm => Ab(Sum(x) - U) <= 16 * emb.n)
   /\ (\A j \in DOMAIN x : x[j] >= 0 /\ x[j] <= U + 4)
   /\ (~emb.norm => \A j \in DOMAIN x : v = 2 * (j - 1) => x[j] = U)
   /\ (emb.one => LET y == Features(emb, <<>>, (2 * (emb.n - 1)) - v) IN \A j \in DOMAIN x : y[j] = x[emb.n + 1 - j])
(* positions: the slower half turns more slowly, a shift rotates each pair *)
Mul(a, b) == ((a \div 4) * (b \div 4)) \div 4096
PosOk == (Unreduced /\ emb.k = "pos") => \A v \in {a \in V : a % 9 = 0} :
   LET x == Features(emb, <<>>, v) y == Features(emb, <<>>, v + 5) z == Features(emb, <<>>, 5) h == emb.n \div 2 IN
   /\ Len(x) = emb.n + (IF emb.append THEN 1 ELSE 0)
   /\ \A i \in 1..h : Ab(y[i] - (Mul(x[i], z[h + i]) + Mul(x[h + i], z[i]))) <= 24
   /\ x[h] = Sin120(v)
(* reductions add up over the features: reducing twice is reducing by the product *)
ReduceOk == (Len(reds) = 1 /\ vals = <<>>) => \A v \in {a \in V : a % 11 = 0} :
   LET n == Width(emb, <<>>) id == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN n ELSE 0]] IN
   \A i \in DOMAIN R : Ab(Features(emb, <<id>> \o reds, v)[i] - Features(emb, reds, v)[i]) <= 1
(* features of fields: the stated derivative is the difference quotient up to curvature *)
Parts == <<[k |-> "poly", powers |-> <<0, 1, 2>>], [k |-> "sin", freq |-> <<<<1, 3>>, <<2, 5>>>>]>>
DerivOk == (phase = "new") => \A x \in (0 - 3)..3, c \in 1..2 :
   LET d == Cat(Parts, c, x, TRUE) a == Cat(Parts, c, x + 1, FALSE) b == Cat(Parts, c, x - 1, FALSE) IN
   \A i \in DOMAIN d : Ab((2 * d[i]) - (a[i] - b[i])) <= 512
(* the same machine, kinds and arguments drawn at random *)
GNext == \/ (phase = "new" /\ (\E c \in {RandomElement(Choices(RandomElement(Kinds)))} : emb' = c) /\ phase' = "stack" /\ UNCHANGED <<reds, vals>>)
         \/ (Stack /\ vals = <<>> /\ RandomElement(1..2) = 1)
         \/ (phase = "stack" /\ Len(vals) < MaxVals /\ (\E v \in {RandomElement(IF RandomElement(1..8) = 1 THEN Far(emb) ELSE Domain(emb))} : vals' = Append(vals, v)) /\ UNCHANGED <<emb, reds, phase>>)
         \/ Close
GSpec == EInit /\ [][GNext]_evars
Gen == phase = "done" => PrintT("CASE " \o ToJson([emb |-> emb, reds |-> reds, vals |-> vals]))
=============================================================================
