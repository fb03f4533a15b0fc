------------------------------- MODULE MCExec -------------------------------
EXTENDS Exec, TLC, Json
CONSTANTS MaxRank, MaxSize, MaxOps, MaxPeel
VARIABLES ops, prev
vars == <<evars, ops, prev>>
Kinds == {"swap", "take", "part", "twice", "flip", "move", "insert", "drop", "merge", "cut"}
Shapes == {<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 2>>, <<2, 1, 2>>, <<6>>}
Fits(t) == Rank(t) <= MaxRank /\ Prod(t.s) <= MaxSize
Init == EInit /\ ops = 0 /\ prev = 0
CONSTANT Short
(* the exhaustive search remembers the kind of the last step only *)
W(r) == word' = (IF Short THEN <<[t |-> r.t]>> ELSE Append(word, r)) /\ ops' = ops + 1
Numbers == 0..MaxSize
Start == ops = 0 /\ \E s \in Shapes : Begin(s) /\ W([t |-> "begin", s |-> s]) /\ prev' = 0
Rearr == \E k \in Kinds, a \in 1..(MaxRank + 1), b \in Numbers : Allowed(Here, k, a, b) /\ Fits(Lay(Here, k, a, b)) /\ Arrange(k, a, b) /\ W([t |-> k, a |-> a, b |-> b]) /\ prev' = ver
Upd == \E v \in 1..2 : v # ver /\ Update(v) /\ W([t |-> "update", v |-> v]) /\ prev' = ver
P(a, o, how) == [a |-> a, o |-> o, how |-> how]
Peels(r) == {<<>>} \cup {<<P(a, o, "vmap")>> : a \in 1..r, o \in 1..r} \cup
            (IF r < 2 \/ MaxPeel < 2 THEN {} ELSE {<<P(a, o, "vmap"), P(c, d, "loop")>> : a \in 1..r, o \in 1..r, c \in 1..(r - 1), d \in 1..(r - 1)})
Eval == \E ps \in Peels(Rank(Here)) : Evaluate /\ W([t |-> "eval", peel |-> ps]) /\ prev' = ver
Next == Start \/ (ops > 0 /\ ops < MaxOps /\ (Rearr \/ Upd \/ Eval))
Spec == Init /\ [][Next]_vars
Full == Len(lay) = Prod(sh) /\ \A i \in DOMAIN sh : sh[i] >= 1
(* positions and indices are inverse to each other *)
Indexing == \A p \in 1..Prod(sh) : Pos(sh, Idx(sh, p)) = p
(* slice by slice and stacked again is nothing but a move of the axis *)
Slicewise == \A a \in 1..Rank(Here), o \in 1..Rank(Here) : Peel(Here, <<P(a, o, "vmap")>>) = Move(Here, a, o)
SameAxes == \A a \in 1..Rank(Here) : Peel(Here, <<P(a, a, "vmap")>>) = Here
NestedPeel == Rank(Here) >= 2 => \A a, o \in 1..Rank(Here), c, d \in 1..(Rank(Here) - 1) :
    Peel(Here, <<P(a, o, "vmap"), P(c, d, "vmap")>>) = Move(Move(Move(Here, a, 1), c + 1, d + 1), 1, o)
(* evaluating in pieces and putting them together again *)
Pieces == \A a \in 1..Rank(Here), n \in 1..MaxSize : n < sh[a] => Join(Part(Here, a, 0, n), Part(Here, a, n, sh[a] - n), a) = Here
Undo == /\ \A a, b \in 1..Rank(Here) : Swap(Swap(Here, a, b), a, b) = Here /\ Move(Move(Here, a, b), b, a) = Here
        /\ \A a \in 1..Rank(Here) : Flip(Flip(Here, a), a) = Here /\ \A n \in 1..sh[a] : sh[a] % n = 0 => Merge(Cut(Here, a, n), a) = Here
(* evaluation leaves the parameters alone *)
Pure == [][(ops' > ops /\ word'[Len(word')].t = "eval") => ver' = ver]_vars
(* random programs *)
One(S) == {RandomElement(S)}
Wraps == {"plain", "jit", "nnxjit", "state", "closed", "remat", "chunk", "grad"}
Hands == {"merge", "clone", "deepcopy", "pytree", "bytes", "puredict", "jitted", "split3"}
Hows == {"vmap", "vmap", "map", "loop", "nnxvmap"}
RECURSIVE RandomPeel(_)
RandomPeel(r) == IF r = 0 \/ RandomElement(1..3) = 1 THEN <<>> ELSE <<P(RandomElement(1..r), RandomElement(1..r), RandomElement(Hows))>> \o RandomPeel(r - 1)
GStart == ops = 0 /\ \E s \in One(Shapes) : Begin(s) /\ W([t |-> "begin", s |-> s]) /\ prev' = 0
Moves == {m \in Kinds \X (1..(MaxRank + 1)) \X (0..3) : Allowed(Here, m[1], m[2], m[3]) /\ Fits(Lay(Here, m[1], m[2], m[3]))}
OfKind(k) == {m \in Moves : m[1] = k}
GRearr == \E k \in One({m[1] : m \in Moves}) : \E m \in One(OfKind(k)) : Arrange(m[1], m[2], m[3]) /\ W([t |-> m[1], a |-> m[2], b |-> m[3]]) /\ prev' = 0
GHand == \E h \in One(Hands) : Hand /\ W([t |-> "hand", h |-> h]) /\ prev' = 0
GUpd == \E v \in One(0..2) : v # ver /\ Update(v) /\ W([t |-> "update", v |-> v]) /\ prev' = 0
GEval == \E ps \in One({RandomPeel(Rank(Here))}), w \in One(Wraps), d \in One({"forward", "reverse"}) :
            Evaluate /\ W([t |-> "eval", peel |-> ps, wrap |-> w, dir |-> d]) /\ prev' = 1
GStep(k) == CASE k \in 1..3 -> GRearr [] k = 4 -> GHand [] k = 5 -> GUpd [] OTHER -> (IF prev = 0 THEN GEval ELSE GRearr)
GNext == GStart \/ (ops > 0 /\ ops < MaxOps /\ \E k \in One(1..8) : GStep(k)) \/ (ops = MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<evars, prev>>)
GSpec == Init /\ [][GNext]_vars
Gen == ops > MaxOps => PrintT("CASE " \o ToJson([word |-> word]))
=============================================================================
