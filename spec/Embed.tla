------------------------------- MODULE Embed --------------------------------
(* Embeddings of scalars, linear reductions stacked on them, and pointwise
   features of lattice fields with the divergence of a linear map behind them.
   Values are in units of 2^-16.

   An embedding is a record with its kind, its number n of features and
     "lin"      arguments in quarters of the distance of two positions
     "fourier"  arguments in 120ths of the period
     "gauss"    arguments in half distances of two positions; e[j] gives the
                width: feature j at distance d/2 is 2^(-e[j] d^2 / 4)
     "pos"      frequencies 2^(-b i) of the largest, arguments such that the
                slowest feature turns by 120ths.                            *)
EXTENDS Integers, Sequences, FiniteSets, Trig
CONSTANTS Kinds, Counts, Widths, Bases, MaxRed, RedTo, Entries, MaxVals
VARIABLES emb, reds, vals, phase
evars == <<emb, reds, vals, phase>>
U == 65536
Ab(a) == IF a < 0 THEN 0 - a ELSE a
RECURSIVE Pw(_, _)
Pw(a, k) == IF k = 0 THEN 1 ELSE a * Pw(a, k - 1)
Max0(a) == IF a < 0 THEN 0 ELSE a
(* 2^(-k/4) *)
Root4 == <<65536, 55109, 46341, 38968>>
Half(k) == IF k >= 68 THEN 0 ELSE Root4[(k % 4) + 1] \div Pw(2, k \div 4)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
Expo(c, v, j) == c.e[j] * (v - (2 * (j - 1))) * (v - (2 * (j - 1)))
Gauss(c, v) ==
   LET N == IF c.norm THEN SetMin({Expo(c, v, j) : j \in 1..c.n}) ELSE 0
       w == [j \in 1..c.n |-> Half(Expo(c, v, j) - N)]
   IN IF c.norm THEN LET W == Sum(w) IN [j \in 1..c.n |-> ((w[j] \div 4) * 65536) \div (W \div 4 + (IF W < 4 THEN 1 ELSE 0))]
      ELSE w
Lin(c, v) == [j \in 1..c.n |-> 16384 * Max0(4 - Ab(v - (4 * (j - 1))))]
Fourier(c, v) == LET m == (c.n - 1) \div 2
   IN [f \in 1..m |-> Sin120(f * v)] \o [f \in 1..m |-> Cos120(f * v)] \o <<U>>
(* the argument itself is v 2^(b (h - 1)) 2 pi / 120 *)
Pos(c, v) == LET h == c.n \div 2 a(i) == v * Pw(2, c.b * (h - i))
   IN [i \in 1..h |-> Sin120(a(i))] \o [i \in 1..h |-> Cos120(a(i))] \o (IF c.append THEN <<a(1) * 3431>> \o <<>> ELSE <<>>)
Base(c, v) == CASE c.k = "lin" -> Lin(c, v) [] c.k = "fourier" -> Fourier(c, v) [] c.k = "gauss" -> Gauss(c, v) [] c.k = "pos" -> Pos(c, v)
(* one reduction: superpositions of the features over their number *)
Row(S, x, i) == Sum([j \in DOMAIN x |-> S[i][j] * x[j]])
Reduced(S, x) == [i \in DOMAIN S |-> IF Row(S, x, i) < 0 THEN 0 - ((0 - Row(S, x, i)) \div Len(x)) ELSE Row(S, x, i) \div Len(x)]
RECURSIVE Through(_, _)
Through(rs, x) == IF rs = <<>> THEN x ELSE Through(Tail(rs), Reduced(Head(rs), x))
Features(c, rs, v) == Through(rs, Base(c, v))
(* how far apart rounding may leave the two sides *)
Slack(c, v) == CASE c.k = "lin" -> 2 [] c.k = "gauss" -> IF c.norm THEN 16 ELSE 4
                 [] c.k = "pos" -> 4 + (IF c.append THEN Ab(v) * Pw(2, c.b * ((c.n \div 2) - 1)) ELSE 0) [] OTHER -> 4
RECURSIVE Worst(_, _)
Worst(rs, t) == IF rs = <<>> THEN t
                ELSE Worst(Tail(rs), 2 + (t * SetMin({k \in 0..12 : \A i \in DOMAIN Head(rs) : \A j \in DOMAIN Head(rs)[i] : Ab(Head(rs)[i][j]) <= k})))
Tol(c, rs, v) == Worst(rs, Slack(c, v))
Period(c) == IF c.k = "fourier" THEN 120 ELSE 0
Domain(c) == CASE c.k = "lin" -> (0 - 9)..(4 * c.n + 5) [] c.k = "gauss" -> (0 - 7)..(2 * c.n + 5)
               [] c.k = "fourier" -> (0 - 130)..260 [] OTHER -> (0 - 40)..120
Far(c) == IF c.k = "gauss" THEN {0 - 300, 250} ELSE IF c.k = "lin" THEN {0 - 1000, 1000} ELSE {360, 0 - 241}
(* the machine: choose an embedding, stack reductions, feed arguments *)
MkGauss(n) == { [k |-> "gauss", n |-> n, norm |-> nm, one |-> o, e |-> [j \in 1..n |-> IF o THEN w ELSE w + ((j * j) % 3)]]
                : nm \in BOOLEAN, o \in BOOLEAN, w \in Widths }
Choices(k) == CASE k = "lin" -> {[k |-> "lin", n |-> n] : n \in Counts \ {1}}
                [] k = "fourier" -> {[k |-> "fourier", n |-> n] : n \in Counts}
                [] k = "gauss" -> UNION {MkGauss(n) : n \in Counts \ {1}}
                [] k = "pos" -> {[k |-> "pos", n |-> 2 * n, b |-> b, append |-> a] : n \in {m \in Counts : m <= 5}, b \in Bases, a \in BOOLEAN}
EInit == emb = [k |-> "none"] /\ reds = <<>> /\ vals = <<>> /\ phase = "new"
Choose == phase = "new" /\ (\E k \in Kinds : emb' \in Choices(k)) /\ phase' = "stack" /\ UNCHANGED <<reds, vals>>
Width(c, rs) == Len(Features(c, rs, 0))
Seed(m, r, i, j) == (((i * 7) + (j * 11) + (m * 13) + (r * 5) + (i * j * m)) % Entries) - (Entries \div 2)
Stack == /\ phase = "stack" /\ Len(reds) < MaxRed
         /\ \E r \in RedTo, m \in 1..3 : reds' = Append(reds, [i \in 1..r |-> [j \in 1..Width(emb, reds) |-> Seed(m, r, i, j)]])
         /\ UNCHANGED <<emb, vals, phase>>
Feed == phase = "stack" /\ Len(vals) < MaxVals /\ (\E v \in Domain(emb) \cup Far(emb) : vals' = Append(vals, v)) /\ UNCHANGED <<emb, reds, phase>>
Close == phase = "stack" /\ Len(vals) = MaxVals /\ phase' = "done" /\ UNCHANGED <<emb, reds, vals>>
ENext == Choose \/ (Stack /\ vals = <<>>) \/ Feed \/ Close

(* ---- pointwise features of a field, x[site][channel] integers ----------- *)
(* parts: <<"poly", powers>> or <<"sin", frequencies[channel]>>; feature sin(2 pi f x / 120) *)
PartF(p, c, x) == IF p.k = "poly" THEN [i \in DOMAIN p.powers |-> U * Pw(x, p.powers[i])]
                  ELSE [i \in DOMAIN p.freq[c] |-> Sin120(p.freq[c][i] * x)]
(* derivative with respect to x; 2 pi / 120 = 3431.5 / 65536 *)
PartD(p, c, x) == IF p.k = "poly" THEN [i \in DOMAIN p.powers |-> IF p.powers[i] = 0 THEN 0 ELSE U * p.powers[i] * Pw(x, p.powers[i] - 1)]
                  ELSE [i \in DOMAIN p.freq[c] |-> (p.freq[c][i] * (Cos120(p.freq[c][i] * x) \div 8) * 429) \div 1024]
RECURSIVE Cat(_, _, _, _)
Cat(ps, c, x, d) == IF ps = <<>> THEN <<>> ELSE (IF d THEN PartD(Head(ps), c, x) ELSE PartF(Head(ps), c, x)) \o Cat(Tail(ps), c, x, d)
FeatureCount(ps) == Len(Cat(ps, 1, 0, FALSE))
SiteFeatures(ps, xs) == [c \in DOMAIN xs |-> Cat(ps, c, xs[c], FALSE)]
(* W[c][f][o]: coupling of feature f of channel c into channel o; the divergence of the
   linear map behind the features keeps the terms from a channel into itself *)
SiteDiv(ps, W, xs) == Sum([c \in DOMAIN xs |-> LET g == Cat(ps, c, xs[c], TRUE) IN Sum([i \in DOMAIN g |-> W[c][i][c] * g[i]])])
Divergence(ps, W, mask, x) == Sum([s \in DOMAIN x |-> IF mask[s] = 0 THEN 0 ELSE mask[s] * SiteDiv(ps, W, x[s])])
=============================================================================
