-------------------------------- MODULE Exec --------------------------------
(* Ways of evaluating one module on many points.

   A tensor of points is its shape and the numbers of its points in row-major
   order.  Rearranging the tensor, handing the module on through its state and
   the modes of evaluation (slice by slice, at once, compiled) only ever move
   points around: every point is worth what the module makes of it alone.    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sh, lay, ver, word
evars == <<sh, lay, ver, word>>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
T(s, f) == [s |-> s, f |-> f]
Rank(t) == Len(t.s)
(* multi-index (0-based entries) of flat position p (1-based) and back *)
Stride(s, k) == Prod(SubSeq(s, k + 1, Len(s)))
Idx(s, p) == [k \in 1..Len(s) |-> ((p - 1) \div Stride(s, k)) % s[k]]
RECURSIVE PosFrom(_, _, _)
PosFrom(s, ix, k) == IF k > Len(s) THEN 0 ELSE ix[k] * Stride(s, k) + PosFrom(s, ix, k + 1)
Pos(s, ix) == 1 + PosFrom(s, ix, 1)
At(t, ix) == t.f[Pos(t.s, ix)]
(* the tensor of shape s whose entry at ix is at(ix) *)
Tabulate(s, at(_)) == T(s, [p \in 1..Prod(s) |-> at(Idx(s, p))])
Without(s, a) == SubSeq(s, 1, a - 1) \o SubSeq(s, a + 1, Len(s))
With(s, a, v) == SubSeq(s, 1, a - 1) \o <<v>> \o SubSeq(s, a, Len(s))
Put(s, a, v) == [s EXCEPT ![a] = v]
(* rearrangements; axes count from one *)
Swap(t, a, b) == Tabulate([t.s EXCEPT ![a] = t.s[b], ![b] = t.s[a]], LAMBDA ix : At(t, [ix EXCEPT ![a] = ix[b], ![b] = ix[a]]))
Slice(t, a, i) == Tabulate(Without(t.s, a), LAMBDA ix : At(t, With(ix, a, i)))
Part(t, a, lo, n) == Tabulate(Put(t.s, a, n), LAMBDA ix : At(t, Put(ix, a, ix[a] + lo)))
Join(t, u, a) == Tabulate(Put(t.s, a, t.s[a] + u.s[a]), LAMBDA ix : IF ix[a] < t.s[a] THEN At(t, ix) ELSE At(u, Put(ix, a, ix[a] - t.s[a])))
Stack(ts, a) == Tabulate(With(ts[1].s, a, Len(ts)), LAMBDA ix : At(ts[ix[a] + 1], Without(ix, a)))
Flip(t, a) == Tabulate(t.s, LAMBDA ix : At(t, Put(ix, a, t.s[a] - 1 - ix[a])))
Move(t, a, b) == Tabulate(With(Without(t.s, a), b, t.s[a]), LAMBDA ix : At(t, With(Without(ix, b), a, ix[b])))
Insert(t, a) == T(With(t.s, a, 1), t.f)
Drop(t, a) == T(Without(t.s, a), t.f)
Merge(t, a) == T(Put(Without(t.s, a + 1), a, t.s[a] * t.s[a + 1]), t.f)
Cut(t, a, n) == T(With(Put(t.s, a, t.s[a] \div n), a, n), t.f)
(* what a rearrangement token does; tokens that are not allowed are not generated *)
Lay(t, k, a, b) == CASE k = "swap" -> Swap(t, a, b) [] k = "take" -> Slice(t, a, b) [] k = "part" -> Part(t, a, b, t.s[a] - b)
                     [] k = "twice" -> Join(t, t, a) [] k = "flip" -> Flip(t, a) [] k = "move" -> Move(t, a, b)
                     [] k = "insert" -> Insert(t, a) [] k = "drop" -> Drop(t, a) [] k = "merge" -> Merge(t, a) [] k = "cut" -> Cut(t, a, b)
Allowed(t, k, a, b) == CASE k \in {"swap", "move"} -> a \in 1..Rank(t) /\ b \in 1..Rank(t)
                         [] k = "take" -> a \in 1..Rank(t) /\ b \in 0..(t.s[a] - 1) [] k = "part" -> a \in 1..Rank(t) /\ b \in 1..(t.s[a] - 1)
                         [] k \in {"twice", "flip"} -> a \in 1..Rank(t) /\ b = 1 [] k = "insert" -> a \in 1..(Rank(t) + 1) /\ b = 1
                         [] k = "drop" -> a \in 1..Rank(t) /\ b = 1 /\ t.s[a] = 1 [] k = "merge" -> a \in 1..(Rank(t) - 1) /\ b = 1
                         [] k = "cut" -> a \in 1..Rank(t) /\ b \in 1..t.s[a] /\ t.s[a] % b = 0
(* evaluation with axes peeled off one after the other: from axis a of the points to axis o of the results *)
RECURSIVE Peel(_, _)
Peel(t, ps) == IF ps = <<>> THEN t ELSE Stack([i \in 1..t.s[ps[1].a] |-> Peel(Slice(t, ps[1].a, i - 1), Tail(ps))], ps[1].o)
RECURSIVE PeelOk(_, _)
PeelOk(r, ps) == ps = <<>> \/ (ps[1].a \in 1..r /\ ps[1].o \in 1..r /\ PeelOk(r - 1, Tail(ps)))
Here == T(sh, lay)
EInit == sh = <<>> /\ lay = <<1>> /\ ver = 0 /\ word = <<>>
Begin(s) == sh' = s /\ lay' = [i \in 1..Prod(s) |-> i] /\ ver' = 0
Arrange(k, a, b) == LET t == Lay(Here, k, a, b) IN sh' = t.s /\ lay' = t.f /\ ver' = ver
Hand == UNCHANGED <<sh, lay, ver>>
Update(v) == ver' = v /\ UNCHANGED <<sh, lay>>
Evaluate == UNCHANGED <<sh, lay, ver>>
=============================================================================
