------------------------------- MODULE MCNets -------------------------------
EXTENDS Nets, TLC, Json
SmallLat == {<<3>>, <<2, 3>>}
SmallTaps == {<<3>>, <<3, 1>>}
ManyLat == {<<3>>, <<5>>, <<3, 3>>, <<4, 3>>, <<3, 5>>, <<2, 3, 2>>}
ManyTaps == {<<1>>, <<3>>, <<3, 3>>, <<1, 3>>, <<3, 1>>, <<1, 3, 1>>}
Spec == NInit /\ [][NNext]_nvars
Ready == pc > 0 /\ pc = net.goal + 1
RECURSIVE WidthAt(_, _)
WidthAt(n, l) == IF l = 0 THEN n.in ELSE Len(n.layers[l].b)
(* every layer has its width *)
Widths == pc > 0 => (\A s \in DOMAIN h : Len(h[s]) = WidthAt(net, pc - 1)) /\ Len(h) = Len(inp)
(* running the layers is the function of the network *)
Meaning == Ready => h = Forward(net, 1, inp)
(* nothing dropped is one of the outcomes only if each kept value counts once *)
Shift(n, x) == [s \in DOMAIN x |-> x[1 + Site(n.lat, [i \in DOMAIN n.lat |-> (Coord(n.lat, s - 1)[i] + (IF i = 1 THEN 1 ELSE 2)) % n.lat[i]])]]
(* convolutional networks commute with translations *)
Translates == (Ready /\ net.k = "conv") => Forward(net, 1, Shift(net, inp)) = Shift(net, h)
(* a residual network of vanishing blocks is its two outer layers *)
Bare == (pc = 1 /\ net.k = "res") => LET z == [net EXCEPT !.layers = [l \in DOMAIN net.layers |-> IF l = 1 \/ l = net.goal THEN net.layers[l] ELSE
            [w |-> [p \in DOMAIN net.layers[l].w |-> [r \in DOMAIN net.layers[l].b |-> 0]], b |-> [r \in DOMAIN net.layers[l].b |-> 0]]]]
            m == [net EXCEPT !.layers = <<net.layers[1], net.layers[net.goal]>>] IN Forward(z, 1, inp) = Forward(m, 1, inp)
Gen == Ready => PrintT("CASE " \o ToJson([net |-> net]))
GStart == /\ net.k = "none"
          /\ \E k \in NetKinds, f \in Acts : \E i \in {RandomElement(Sizes)}, a \in {RandomElement(Acts)}, lat \in {RandomElement(Lattices)}, seed \in {RandomElement(1..7)} :
               \E t \in {RandomElement({u \in Taps : Len(u) = Len(lat)})} :
               net' = [k |-> k, act |-> a, final |-> f, lat |-> (IF k = "conv" THEN lat ELSE <<>>), taps |-> (IF k = "conv" THEN t ELSE <<>>), layers |-> <<>>, seed |-> seed, in |-> i, width |-> i, goal |-> 0]
          /\ UNCHANGED <<h, pc, inp>>
GSpec == NInit /\ [][GStart \/ Aim \/ Grow \/ Feed \/ Run]_nvars
=============================================================================
