-------------------------------- MODULE Nets --------------------------------
(* Feedforward, residual and convolutional networks on integers, one layer per
   step.  A layer is [w |-> w[i][o], b |-> b[o]] or, for convolutions with
   periodic boundaries, [w |-> w[tap][i][o], b |-> b[o]], taps in row-major
   order.  A signal is h[site][channel] (one site unless convolutional).     *)
EXTENDS Integers, Sequences
CONSTANTS NetKinds, Sizes, Depths, Acts, Lattices, Taps, Spread, MaxX
VARIABLES net, h, pc, inp
nvars == <<net, h, pc, inp>>
Act(a, x) == CASE a = "id" -> x [] a = "relu" -> (IF x < 0 THEN 0 ELSE x) [] a = "wrap" -> ((x + 3) % 7) - 3 [] a = "sq" -> ((x % 5) * (x % 5)) - 2 [] a = "neg" -> 0 - x
RECURSIVE Dot(_, _, _, _)
Dot(w, x, o, i) == IF i = 0 THEN 0 ELSE (w[i][o] * x[i]) + Dot(w, x, o, i - 1)
Affine(L, x) == [o \in DOMAIN L.b |-> Dot(L.w, x, o, Len(x)) + L.b[o]]
ActV(a, x) == [i \in DOMAIN x |-> Act(a, x[i])]
(* sites of a periodic lattice *)
RECURSIVE Vol(_)
Vol(s) == IF s = <<>> THEN 1 ELSE Head(s) * Vol(Tail(s))
RECURSIVE Coord(_, _)
Coord(s, k) == IF s = <<>> THEN <<>> ELSE <<k \div Vol(Tail(s))>> \o Coord(Tail(s), k % Vol(Tail(s)))
RECURSIVE Site(_, _)
Site(s, c) == IF s = <<>> THEN 0 ELSE (Head(c) * Vol(Tail(s))) + Site(Tail(s), Tail(c))
(* the tap t of a kernel of shape t looks (tap - centre) sites away *)
Look(n, t, s, k) == LET c == Coord(n.lat, s - 1) d == Coord(t, k - 1)
   IN 1 + Site(n.lat, [i \in DOMAIN c |-> (c[i] + d[i] - (t[i] \div 2)) % n.lat[i]])
RECURSIVE TapSum(_, _, _, _, _)
TapSum(n, L, x, s, k) == IF k = 0 THEN L.b ELSE
   LET r == TapSum(n, L, x, s, k - 1) y == x[Look(n, n.taps, s, k)] IN [o \in DOMAIN L.b |-> r[o] + Dot(L.w[k], y, o, Len(y))]
Conv(n, L, x) == [s \in DOMAIN x |-> TapSum(n, L, x, s, Vol(n.taps))]
Apply(n, L, x) == IF n.k = "conv" THEN Conv(n, L, x) ELSE [s \in DOMAIN x |-> Affine(L, x[s])]
ActH(a, x) == [s \in DOMAIN x |-> ActV(a, x[s])]
AddH(x, y) == [s \in DOMAIN x |-> [i \in DOMAIN x[s] |-> x[s][i] + y[s][i]]]
Times(x, m) == [s \in DOMAIN x |-> [i \in DOMAIN x[s] |-> x[s][i] * m[i]]]
(* layer l of the network on signal x, m is the dropout mask (0, or 1 over the kept fraction) *)
Step(n, l, x, m) == LET L == n.layers[l] IN
   IF n.k = "res" THEN
      CASE l = 1 -> Apply(n, L, x)
        [] l = Len(n.layers) -> ActH(n.final, Apply(n, L, x))
        [] OTHER -> AddH(x, Apply(n, L, ActH(n.act, Times(x, m))))
   ELSE ActH(IF l = Len(n.layers) THEN n.final ELSE n.act, Apply(n, L, x))
Ones(x) == [i \in 1..Len(x[1]) |-> 1]
RECURSIVE Forward(_, _, _)
Forward(n, l, x) == IF l > Len(n.layers) THEN x ELSE Forward(n, l + 1, Step(n, l, x, Ones(x)))
(* every result some pattern of dropped values can give, half of them kept on average *)
RECURSIVE Dropped(_, _, _)
Dropped(n, l, x) == IF l > Len(n.layers) THEN {x}
   ELSE IF l = 1 \/ l = Len(n.layers) THEN Dropped(n, l + 1, Step(n, l, x, Ones(x)))
   ELSE UNION {Dropped(n, l + 1, Step(n, l, x, m)) : m \in [1..Len(x[1]) -> {0, 2}]}
Hash(a, b, c, d) == ((((a * 31) + (b * 17) + (c * 13) + (d * 7) + (a * b) + (c * d)) % 101) % ((2 * Spread) + 1)) - Spread
DenseL(i, o, s) == [w |-> [p \in 1..i |-> [r \in 1..o |-> Hash(p, r, s, i)]], b |-> [r \in 1..o |-> Hash(r, s, o, 3)]]
ConvL(t, i, o, s) == [w |-> [k \in 1..Vol(t) |-> [p \in 1..i |-> [r \in 1..o |-> Hash(k, p, r, s)]]], b |-> [r \in 1..o |-> Hash(r, s, o, 5)]]
NInit == net = [k |-> "none"] /\ h = <<>> /\ pc = 0 /\ inp = <<>>
(* build: kind and input width, then layer after layer, then freeze with an output width *)
Start == /\ net.k = "none"
         /\ \E k \in NetKinds, i \in Sizes, a \in Acts, f \in Acts, lat \in Lattices, seed \in 1..7 : \E t \in Taps :
              (k = "conv" => Len(t) = Len(lat) /\ a # "sq")
              /\ net' = [k |-> k, act |-> a, final |-> f, lat |-> (IF k = "conv" THEN lat ELSE <<>>), taps |-> (IF k = "conv" THEN t ELSE <<>>), layers |-> <<>>, seed |-> seed, in |-> i, width |-> i, goal |-> 0]
         /\ UNCHANGED <<h, pc, inp>>
Aim == net.k # "none" /\ pc = 0 /\ net.goal = 0 /\ (\E d \in Depths : net' = [net EXCEPT !.goal = d + 2]) /\ UNCHANGED <<h, pc, inp>>
Lay(o) == LET s == net.seed + (3 * Len(net.layers)) IN IF net.k = "conv" THEN ConvL(net.taps, net.width, o, s) ELSE DenseL(net.width, o, s)
Grow == /\ net.k # "none" /\ pc = 0 /\ net.goal > Len(net.layers)
        /\ \E o \in Sizes : (net.k = "res" /\ Len(net.layers) >= 1 /\ Len(net.layers) < net.goal - 1 => o = net.width)
             /\ net' = [net EXCEPT !.layers = Append(@, Lay(o)), !.width = o]
        /\ UNCHANGED <<h, pc, inp>>
Feed == /\ net.k # "none" /\ pc = 0 /\ net.goal > 0 /\ Len(net.layers) = net.goal
        /\ \E s \in 1..3 : inp' = [v \in 1..(IF net.k = "conv" THEN Vol(net.lat) ELSE 1) |-> [i \in 1..net.in |-> (((v * 5) + (i * 3) + (s * v * i)) % ((2 * MaxX) + 1)) - MaxX]]
        /\ h' = inp' /\ pc' = 1 /\ UNCHANGED net
Run == pc > 0 /\ pc <= net.goal /\ h' = Step(net, pc, h, Ones(h)) /\ pc' = pc + 1 /\ UNCHANGED <<net, inp>>
NNext == Start \/ Aim \/ Grow \/ Feed \/ Run
=============================================================================
