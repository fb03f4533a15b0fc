-------------------------------- MODULE Mask --------------------------------
(* A mask partitions the entries of an event.  Entries are numbered 0..n-1 in
   row-major order; prim and sec list the entries of the two parts in the order
   in which splitting delivers them.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes0, MaxFlips
VARIABLES shape, prim, sec, flips, how

RECURSIVE Prod0(_)
Prod0(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod0(Tail(s))
N(sh) == Prod0(sh)
RECURSIVE SortSet(_)
SortSet(A) == IF A = {} THEN <<>> ELSE LET m == CHOOSE a \in A : \A b \in A : a <= b
                                       IN <<m>> \o SortSet(A \ {m})
Rng(s) == {s[i] : i \in DOMAIN s}
Rev0(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Ascending(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
(* coordinates of entry k *)
RECURSIVE Coord(_, _)
Coord(sh, k) == IF sh = <<>> THEN <<>>
                ELSE LET r == N(Tail(sh)) IN <<k \div r>> \o Coord(Tail(sh), k % r)

Others(sh, p) == SortSet((0..N(sh) - 1) \ Rng(p))
Build(sh, p) == shape = sh /\ prim = p /\ sec = Others(sh, p)
Init == \E sh \in Shapes0 : \E A \in SUBSET (0..N(sh) - 1) :
          /\ flips = 0
          /\ \/ how = "bool" /\ Build(sh, SortSet(A))
             \/ how = "idx" /\ A # {} /\ Build(sh, Rev0(SortSet(A)))
Flip == /\ flips < MaxFlips /\ flips' = flips + 1
        /\ prim' = sec /\ sec' = prim /\ UNCHANGED <<shape, how>>
Spec == Init /\ [][Flip]_<<shape, prim, sec, flips, how>>

(* splitting and merging an array given as a function of its entries *)
Split(a, p, s) == << [i \in 1..Len(p) |-> a[p[i] + 1]], [i \in 1..Len(s) |-> a[s[i] + 1]] >>
Merge(x, y, p, s) == [k \in 1..(Len(p) + Len(s)) |->
     IF k - 1 \in Rng(p) THEN x[CHOOSE i \in DOMAIN p : p[i] = k - 1]
     ELSE y[CHOOSE i \in DOMAIN s : s[i] = k - 1]]

Partition == Rng(prim) \cap Rng(sec) = {} /\ Rng(prim) \cup Rng(sec) = 0..N(shape) - 1
             /\ Len(prim) + Len(sec) = N(shape)
Lossless == LET a == [k \in 1..N(shape) |-> k * k] sp == Split(a, prim, sec)
            IN Merge(sp[1], sp[2], prim, sec) = a
FlipTwiceIsIdentity == flips = 2 => \/ how = "bool" /\ Ascending(prim) /\ Ascending(sec)
                                    \/ how = "idx" /\ Ascending(Rev0(prim))
(* A coupling layer with integer data: entry k of the first part becomes
   s[k] * x[k] + sum_m W[k][m] * x[m] over the entries m of the second part.  *)
RECURSIVE Dot(_, _, _, _)
Dot(W, x, k, ms) == IF ms = <<>> THEN 0 ELSE W[k + 1][Head(ms) + 1] * x[Head(ms) + 1] + Dot(W, x, k, Tail(ms))
DivBy(a, v) == LET h == IF a \in {2, 0 - 2} THEN (IF v % 2 = 0 THEN v \div 2 ELSE Assert(FALSE, "inexact")) ELSE v
               IN IF a < 0 THEN 0 - h ELSE h
Couple(x, p, s, sc, W, fwd) ==
  [k \in 1..Len(x) |-> IF k - 1 \in Rng(p)
     THEN (IF fwd THEN sc[k] * x[k] + Dot(W, x, k - 1, s) ELSE DivBy(sc[k], x[k] - Dot(W, x, k - 1, s)))
     ELSE x[k]]
RECURSIVE LgSum(_, _)
LgSum(p, sc) == IF p = <<>> THEN 0 ELSE (IF sc[Head(p) + 1] \in {2, 0 - 2} THEN 1 ELSE 0) + LgSum(Tail(p), sc)
CouplingInverts == LET n == N(shape)
                       x == [k \in 1..n |-> 4 * k - 7]
                       sc == [k \in 1..n |-> <<2, 0 - 1, 1, 0 - 2>>[(k % 4) + 1]]
                       W == [k \in 1..n |-> [m \in 1..n |-> ((k * m) % 5) - 2]]
                   IN Couple(Couple(x, prim, sec, sc, W, TRUE), prim, sec, sc, W, FALSE) = x
Checker(sh, par) == {k \in 0..N(sh) - 1 : LET c == Coord(sh, k)
                       RECURSIVE Sm(_)
                       Sm(t) == IF t = <<>> THEN 0 ELSE Head(t) + Sm(Tail(t))
                     IN (Sm(c) + par) % 2 = 1}
Gen == PrintT("CASE " \o ToJson([shape |-> shape, how |-> how, flips |-> flips,
              built |-> IF flips % 2 = 0 THEN prim ELSE sec]))
=============================================================================
