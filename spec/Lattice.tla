------------------------------ MODULE Lattice -------------------------------
(* The symmetry group of a periodic rectangular lattice.  Sites are numbered
   row-major from 0.  A symmetry is the permutation of sites generated by unit
   translations, reflections of an axis through site 0 and exchanges of two
   axes of equal length; it is kept as a signed axis permutation and an offset.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
RECURSIVE Prod0(_), Coord(_, _), LinGo(_, _, _, _), Sum0(_)
Prod0(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod0(Tail(s))
Sum0(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum0(Tail(s))
Coord(sh, k) == IF sh = <<>> THEN <<>>
                ELSE LET r == Prod0(Tail(sh)) IN <<k \div r>> \o Coord(Tail(sh), k % r)
LinGo(sh, c, i, acc) == IF i > Len(sh) THEN acc ELSE LinGo(sh, c, i + 1, acc * sh[i] + c[i])
Lin(sh, c) == LinGo(sh, c, 1, 0)
Shift(L, x, a, s) == [x EXCEPT ![a] = (x[a] + s) % L[a]]
NbSet(L, x) == {Shift(L, x, a, s) : a \in 1..Len(L), s \in {1, 0 - 1}}

(* g = [p, s, t]: site x goes to y with y[a] = s[a] * x[p[a]] + t[a]          *)
Id(L) == [p |-> [a \in 1..Len(L) |-> a], s |-> [a \in 1..Len(L) |-> 1], t |-> [a \in 1..Len(L) |-> 0]]
Act(L, g, x) == [a \in 1..Len(L) |-> (g.s[a] * x[g.p[a]] + g.t[a]) % L[a]]
(* first g, then h *)
Then(L, g, h) == [p |-> [a \in 1..Len(L) |-> g.p[h.p[a]]],
                  s |-> [a \in 1..Len(L) |-> h.s[a] * g.s[h.p[a]]],
                  t |-> [a \in 1..Len(L) |-> (h.s[a] * g.t[h.p[a]] + h.t[a]) % L[a]]]
Inverse(L, g) == LET ip == [a \in 1..Len(L) |-> CHOOSE b \in 1..Len(L) : g.p[b] = a]
                 IN [p |-> ip, s |-> [a \in 1..Len(L) |-> g.s[ip[a]]],
                     t |-> [a \in 1..Len(L) |-> ((0 - g.s[ip[a]]) * g.t[ip[a]]) % L[a]]]
TransG(L, a, n) == [Id(L) EXCEPT !.t[a] = n % L[a]]
FlipG(L, a)  == [Id(L) EXCEPT !.s[a] = 0 - 1]
SwapG(L, a, b) == [Id(L) EXCEPT !.p[a] = b, !.p[b] = a]
(* as a permutation of site numbers: entry k+1 is the image of site k        *)
Perm(L, g) == [k \in 1..Prod0(L) |-> Lin(L, Act(L, g, Coord(L, k - 1)))]

CONSTANTS Sizes0, MaxLen, WithTrans
VARIABLES L, g, word
Init == L \in Sizes0 /\ g = Id(L) /\ word = <<>>
Do(h, w) == Len(word) < MaxLen /\ g' = Then(L, g, h) /\ word' = Append(word, w) /\ UNCHANGED L
Next == \/ \E a \in 1..Len(L) : Do(FlipG(L, a), <<"flip", a - 1, 0>>)
        \/ \E a, b \in 1..Len(L) : a < b /\ L[a] = L[b] /\ Do(SwapG(L, a, b), <<"swap", a - 1, b - 1>>)
        \/ WithTrans /\ \E a \in 1..Len(L) : \E n \in {1, 0 - 1, 2} : Do(TransG(L, a, n), <<"roll", a - 1, n>>)
Spec == Init /\ [][Next]_<<L, g, word>>

Bijective == Cardinality({Perm(L, g)[k] : k \in 1..Prod0(L)}) = Prod0(L)
KeepsNeighbours == \A k \in 0..(Prod0(L) - 1) : LET x == Coord(L, k) IN
                     {Act(L, g, y) : y \in NbSet(L, x)} = NbSet(L, Act(L, g, x))
InverseUndoes == /\ \A k \in 0..(Prod0(L) - 1) : LET x == Coord(L, k) IN
                      Act(L, Inverse(L, g), Act(L, g, x)) = x
Composes == LET h == Inverse(L, g) IN \A k \in 0..(Prod0(L) - 1) : LET x == Coord(L, k) IN
              Act(L, Then(L, g, g), x) = Act(L, g, Act(L, g, x))
Gen == PrintT("CASE " \o ToJson([L |-> L, word |-> word, perm |-> Perm(L, g), p |-> g.p, s |-> g.s, t |-> g.t]))
=============================================================================
