------------------------------- MODULE Bridge -------------------------------
(* An object living in one of two libraries ("B": bijx, "F": flowjax), grown
   by composing it with leaves of either library, by inverting it, and by
   carrying it over the bridge.  Its meaning is a program of exact affine
   steps; crossing the bridge changes the library and nothing else.

   Vectors are integers; log-determinants count log 2.                       *)
EXTENDS Integers, Sequences
CONSTANTS MaxTok
VARIABLES lib, prog, word, kind

Op(k, v) == [k |-> k, v |-> v, inv |-> FALSE]
Flip(o) == [o EXCEPT !.inv = ~@]
RevFlip(p) == [i \in 1..Len(p) |-> Flip(p[Len(p) + 1 - i])]
Other(L) == IF L = "B" THEN "F" ELSE "B"
(* what one token does to <<library, program>> *)
Act(s, t) ==
   CASE t.t = "start" -> <<t.lib, <<t.op>> >>
     [] t.t = "base" -> <<t.lib, <<>> >>
     [] t.t = "post" -> <<s[1], Append(s[2], t.op)>>
     [] t.t = "pre" -> <<s[1], <<t.op>> \o s[2]>>
     [] t.t = "inv" -> <<s[1], RevFlip(s[2])>>
     [] t.t = "bridge" -> <<Other(s[1]), s[2]>>
RECURSIVE Meaning(_)
Meaning(w) == IF Len(w) = 1 THEN Act(<<"B", <<>>>>, w[1]) ELSE Act(Meaning(SubSeq(w, 1, Len(w) - 1)), w[Len(w)])

RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Scaled(x, e) == IF e >= 0 THEN x * P2(e) ELSE x \div P2(0 - e)
RECURSIVE Sum(_, _)
Sum(v, i) == IF i = 0 THEN 0 ELSE v[i] + Sum(v, i - 1)
RECURSIVE Ramp(_, _)
Ramp(c, i) == IF i = 0 THEN 0 ELSE (i * c[i]) + Ramp(c, i - 1)
(* unit lower triangular: row i adds v[i] times the entry above *)
Tri(v, x) == [i \in DOMAIN x |-> IF i = 1 THEN x[1] ELSE x[i] + (v[i] * x[i - 1])]
RECURSIVE UnTri(_, _, _)
UnTri(v, y, i) == IF i = 0 THEN <<>> ELSE LET u == UnTri(v, y, i - 1) IN Append(u, IF i = 1 THEN y[1] ELSE y[i] - (v[i] * u[i - 1]))
At(o, S, c, r) ==                       \* r = [x, ld]; ld is the logarithm of the volume factor
   LET x == r.x n == Len(r.x) sg == IF o.inv THEN 0 - 1 ELSE 1 IN
   CASE o.k = "scale" -> [x |-> [i \in 1..n |-> Scaled(x[i], sg * o.v[i])], ld |-> r.ld + (sg * Sum(o.v, n))]
     [] o.k = "shift" -> [x |-> [i \in 1..n |-> x[i] + (sg * o.v[i] * S)], ld |-> r.ld]
     [] o.k = "cond" -> [x |-> [i \in 1..n |-> x[i] + (sg * o.v[i] * S * Ramp(c, Len(c)))], ld |-> r.ld]
     [] o.k = "perm" -> [x |-> IF o.inv THEN [i \in 1..n |-> x[CHOOSE j \in 1..n : o.v[j] = i]] ELSE [i \in 1..n |-> x[o.v[i]]], ld |-> r.ld]
     [] o.k = "tri" -> [x |-> IF o.inv THEN UnTri(o.v, x, n) ELSE Tri(o.v, x), ld |-> r.ld]
RECURSIVE Run(_, _, _, _)
Run(p, S, c, r) == IF p = <<>> THEN r ELSE Run(Tail(p), S, c, At(Head(p), S, c, r))
Fwd(p, S, c, x) == Run(p, S, c, [x |-> x, ld |-> 0])
Bwd(p, S, c, x) == Run(RevFlip(p), S, c, [x |-> x, ld |-> 0])

(* ------------------------------------------------------------ growing words *)
Ops(n, cond) == {Op("scale", v) : v \in [1..n -> {0 - 1, 1, 2}]} \cup {Op("shift", v) : v \in [1..n -> {0 - 1, 2}]}
   \cup (IF n > 1 THEN {Op("perm", [i \in 1..n |-> (i % n) + 1]), Op("perm", [i \in 1..n |-> n + 1 - i])} \cup {Op("tri", v) : v \in [1..n -> {1, 0 - 2}]} ELSE {})
   \cup (IF cond THEN {Op("cond", v) : v \in [1..n -> {1, 2}]} ELSE {})
Tok(t, op, far, L) == [t |-> t, op |-> op, far |-> far, lib |-> L]
None == Op("none", <<>>)
Push(t) == LET s == Act(<<lib, prog>>, t) IN word' = Append(word, t) /\ lib' = s[1] /\ prog' = s[2] /\ UNCHANGED kind
BInit(n, cond) ==
   \/ \E L \in {"B", "F"}, o \in Ops(n, cond) : lib = L /\ prog = <<o>> /\ word = <<Tok("start", o, FALSE, L)>> /\ kind = "map"
   \/ \E L \in {"B", "F"} : lib = L /\ prog = <<>> /\ word = <<Tok("base", None, FALSE, L)>> /\ kind = "dist"
Post(n, cond) == \E o \in Ops(n, cond), far \in BOOLEAN : Push(Tok("post", o, far, lib))
Pre(n, cond) == kind = "map" /\ \E o \in Ops(n, cond), far \in BOOLEAN : Push(Tok("pre", o, far, lib))
Invert == kind = "map" /\ Push(Tok("inv", None, FALSE, lib))
Cross == Push(Tok("bridge", None, FALSE, lib))
BNext(n, cond) == Len(word) < MaxTok /\ (Post(n, cond) \/ Pre(n, cond) \/ Invert \/ Cross)
=============================================================================
