------------------------------- MODULE Compose -------------------------------
(* Programs of bijections and their exact meaning.

   A program is a tree.  Leaves act on points <<x1, x2>> with scale factors
   that are powers of two, so that the value of every program is an exact
   integer (in units of 1/S) and its log-density an exact multiple of log 2.
   Programs are built by a stack machine, one token at a time.

   Leaves, with a parameter index i in 1..3:
     aff   x -> A[i] * x + B[i]  per entry        sc   x -> C[i] * x
     sh    x -> x + B[i]                          rev  <<x1,x2>> -> <<x2,x1>>
     kw    x -> 2^g * x + c, from keyword arguments c, g (default 0)
     cpl   split coupling layer: x1 -> C[i] * x1 + T[i] * x2
     cpm   multiplicative coupling layer: x2 -> C[i] * x2 + T[i] * x1
     id    identity
   Nodes: chain; inv (Inverse), invm (.invert()), cit/cif (CondInverse with
   True/False), citi (CondInverse(True).invert()), fro (Frozen), par (Partial
   with c = 2, g = 1), scan (ScanChain over the body with parameter indices
   shifted by 0, 1, ...).                                                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxTok, MaxSize
VARIABLES stack, word

S == 65536
A(i) == << <<2, 0-1>>, <<0-2, 2>>, <<1, 0-2>> >>[i]
B(i) == << <<1, 0-3>>, <<0, 2>>, <<0-2, 5>> >>[i]
C(i) == <<2, 0-1, 0-2>>[i]
T(i) == <<1, 0-2, 3>>[i]
Abs0(a) == IF a < 0 THEN 0 - a ELSE a
Lg(a) == IF Abs0(a) = 2 THEN 1 ELSE 0     \* log2 |a|

LeafKinds == {"aff", "sc", "sh", "rev", "kw", "cpl", "cpm", "id"}
Wraps == {"inv", "invm", "cit", "cif", "citi", "fro", "par"}
Leaf(k, i) == [k |-> k, i |-> i, n |-> 0, ps |-> <<>>]
Node(k, n, ps) == [k |-> k, i |-> 0, n |-> n, ps |-> ps]
ParKw == [c |-> 2, g |-> 1]
RECURSIVE Size(_)
Size(p) == IF p.ps = <<>> THEN 1
           ELSE LET sub == [j \in 1..Len(p.ps) |-> Size(p.ps[j])]
                    RECURSIVE Sum(_)
                    Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
                IN (IF p.k = "scan" THEN p.n ELSE 1) * Sum(sub)
RECURSIVE Param(_)   \* has a parameter that can be stacked
Param(p) == p.k \in {"aff", "sc", "sh", "cpl", "cpm"} \/ \E j \in 1..Len(p.ps) : Param(p.ps[j])
Sh(i, d) == ((i - 1 + d) % 3) + 1

(* ---- meaning: a state is [x, ld]; kw is [c, g]; d shifts parameter indices *)
Halve(v) == IF v % 2 = 0 THEN v \div 2 ELSE Assert(FALSE, "inexact")
MulBy(a, v) == a * v
DivBy(a, v) == LET w == IF Abs0(a) = 2 THEN Halve(v) ELSE v IN IF a < 0 THEN 0 - w ELSE w
RECURSIVE Pw(_)
Pw(g) == IF g = 0 THEN 1 ELSE 2 * Pw(g - 1)
RECURSIVE DivPw(_, _)
DivPw(v, g) == IF g = 0 THEN v ELSE DivPw(Halve(v), g - 1)

LeafF(p, i, s, kw) ==
  LET x == s.x IN
  CASE p.k = "aff" -> [x |-> [j \in 1..2 |-> A(i)[j] * x[j] + S * B(i)[j]], ld |-> s.ld - Lg(A(i)[1]) - Lg(A(i)[2])]
    [] p.k = "sc"  -> [x |-> [j \in 1..2 |-> C(i) * x[j]], ld |-> s.ld - 2 * Lg(C(i))]
    [] p.k = "sh"  -> [x |-> [j \in 1..2 |-> x[j] + S * B(i)[j]], ld |-> s.ld]
    [] p.k = "rev" -> [x |-> <<x[2], x[1]>>, ld |-> s.ld]
    [] p.k = "kw"  -> [x |-> [j \in 1..2 |-> Pw(kw.g) * x[j] + S * kw.c], ld |-> s.ld - 2 * kw.g]
    [] p.k = "cpl" -> [x |-> <<C(i) * x[1] + T(i) * x[2], x[2]>>, ld |-> s.ld - Lg(C(i))]
    [] p.k = "cpm" -> [x |-> <<x[1], C(i) * x[2] + T(i) * x[1]>>, ld |-> s.ld - Lg(C(i))]
    [] p.k = "id"  -> s
LeafR(p, i, s, kw) ==
  LET x == s.x IN
  CASE p.k = "aff" -> [x |-> [j \in 1..2 |-> DivBy(A(i)[j], x[j] - S * B(i)[j])], ld |-> s.ld + Lg(A(i)[1]) + Lg(A(i)[2])]
    [] p.k = "sc"  -> [x |-> [j \in 1..2 |-> DivBy(C(i), x[j])], ld |-> s.ld + 2 * Lg(C(i))]
    [] p.k = "sh"  -> [x |-> [j \in 1..2 |-> x[j] - S * B(i)[j]], ld |-> s.ld]
    [] p.k = "rev" -> [x |-> <<x[2], x[1]>>, ld |-> s.ld]
    [] p.k = "kw"  -> [x |-> [j \in 1..2 |-> DivPw(x[j] - S * kw.c, kw.g)], ld |-> s.ld + 2 * kw.g]
    [] p.k = "cpl" -> [x |-> <<DivBy(C(i), x[1] - T(i) * x[2]), x[2]>>, ld |-> s.ld + Lg(C(i))]
    [] p.k = "cpm" -> [x |-> <<x[1], DivBy(C(i), x[2] - T(i) * x[1])>>, ld |-> s.ld + Lg(C(i))]
    [] p.k = "id"  -> s

(* keyword arguments: a record with optional fields; call-time beats Partial *)
Over(kw, def) == [c |-> IF kw.hc THEN kw.c ELSE def.c, g |-> IF kw.hg THEN kw.g ELSE def.g, hc |-> TRUE, hg |-> TRUE]
NoArgs == <<>>

RECURSIVE Eval(_, _, _, _, _, _)
(* fwd: direction; args: per-child keyword records for the first chain reached
   through wrappers (<<>> if none)                                           *)
Merge(kw, a) == [c |-> IF a.hc THEN a.c ELSE kw.c, g |-> IF a.hg THEN a.g ELSE kw.g, hc |-> kw.hc \/ a.hc, hg |-> kw.hg \/ a.hg]
Eval(p, d, fwd, s, kw, args) ==
  CASE p.k \in LeafKinds -> IF fwd THEN LeafF(p, Sh(p.i, d), s, kw) ELSE LeafR(p, Sh(p.i, d), s, kw)
    [] p.k \in {"inv", "invm", "cit"} -> Eval(p.ps[1], d, ~fwd, s, kw, args)
    [] p.k \in {"cif", "citi", "fro"} -> Eval(p.ps[1], d, fwd, s, kw, args)
    [] p.k = "par" -> Eval(p.ps[1], d, fwd, s, Over(kw, ParKw), args)
    [] p.k = "chain" ->
         LET n == Len(p.ps)
             RECURSIVE Go(_, _)
             Go(j, t) == IF j > n THEN t
                         ELSE LET m == IF fwd THEN j ELSE n + 1 - j
                                  k2 == IF args = <<>> THEN kw ELSE Merge(kw, args[m])
                              IN Go(j + 1, Eval(p.ps[m], d, fwd, t, k2, <<>>))
         IN Go(1, s)
    [] p.k = "scan" ->
         LET RECURSIVE Go(_, _)
             Go(j, t) == IF j > p.n THEN t
                         ELSE LET m == IF fwd THEN j - 1 ELSE p.n - j
                              IN Go(j + 1, Eval(p.ps[1], d + m, fwd, t, kw, args))
         IN Go(1, s)

RECURSIVE Spine(_)   \* number of children of the chain that receives arg_list
Spine(p) == IF p.k = "chain" THEN Len(p.ps) ELSE IF p.k \in Wraps THEN Spine(p.ps[1]) ELSE 0

(* ------------------------------------------------------------- construction *)
Init == stack = <<>> /\ word = <<>>
Top == stack[Len(stack)]
Pop(n) == SubSeq(stack, 1, Len(stack) - n)
Tok(t) == Len(word) < MaxTok /\ word' = Append(word, t)
Push(k) == /\ Tok(k)
           /\ stack' = Append(stack, Leaf(k, (Len(word) % 3) + 1))
Wrap(k) == Len(stack) >= 1 /\ Tok(k) /\ stack' = Append(Pop(1), Node(k, 0, <<Top>>))
Chain(n) == /\ Len(stack) >= n /\ Tok("chain")
            /\ stack' = Append(Pop(n), Node("chain", 0, SubSeq(stack, Len(stack) - n + 1, Len(stack))))
Scan(n) == /\ Len(stack) >= 1 /\ Tok("scan") /\ Param(Top) /\ Size(Top) * n <= MaxSize
           /\ stack' = Append(Pop(1), Node("scan", n, <<Top>>))
Next == \/ \E k \in LeafKinds : Push(k)
        \/ \E k \in Wraps : Wrap(k)
        \/ \E n \in 0..3 : Chain(n)
        \/ \E n \in 1..3 : Scan(n)
Spec == Init /\ [][Next]_<<stack, word>>
Complete == Len(stack) = 1
Fits == \A j \in 1..Len(stack) : Size(stack[j]) <= MaxSize

(* --------------------------------------------------------------- properties *)
X0 == [x |-> <<5 * S, 0 - 3 * S>>, ld |-> 7]
Kws == {[c |-> 0, g |-> 0, hc |-> FALSE, hg |-> FALSE], [c |-> 3, g |-> 1, hc |-> TRUE, hg |-> TRUE]}
RoundTrip == Complete => \A kw \in Kws : \A f \in BOOLEAN :
               Eval(Top, 0, ~f, Eval(Top, 0, f, X0, kw, <<>>), kw, <<>>) = X0
InverseSwaps == Complete => \A kw \in Kws : \A f \in BOOLEAN :
                  Eval(Node("inv", 0, <<Top>>), 0, f, X0, kw, <<>>) = Eval(Top, 0, ~f, X0, kw, <<>>)
ChainFlattens == Len(stack) = 2 => \A kw \in Kws :
   Eval(Node("chain", 0, stack), 0, TRUE, X0, kw, <<>>) = Eval(stack[2], 0, TRUE, Eval(stack[1], 0, TRUE, X0, kw, <<>>), kw, <<>>)
Gen == Complete => PrintT("CASE " \o ToJson([word |-> word, prog |-> Top, spine |-> Spine(Top)]))
=============================================================================
