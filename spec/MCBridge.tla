------------------------------ MODULE MCBridge -----------------------------
EXTENDS Bridge, TLC, Json
CONSTANTS Sizes, Goals
VARIABLES n, cond, goal
vars == <<lib, prog, word, kind, n, cond, goal>>
Init == n \in Sizes /\ cond \in BOOLEAN /\ goal \in Goals /\ BInit(n, cond)
Stop == Len(word) >= goal /\ goal > 0 /\ goal' = 0 /\ UNCHANGED <<lib, prog, word, kind, n, cond>>
Next == \/ (goal > Len(word) /\ BNext(n, cond) /\ UNCHANGED <<n, cond, goal>>)
        \/ Stop
Spec == Init /\ [][Next]_vars
(* the same machine with leaves drawn at random, kinds of token first *)
AnyOp == LET K == RandomElement({o.k : o \in Ops(n, cond)}) IN RandomElement({o \in Ops(n, cond) : o.k = K})
GInit == /\ n \in Sizes /\ cond \in BOOLEAN /\ goal \in Goals /\ lib \in {"B", "F"} /\ kind \in {"map", "dist"}
         /\ \E o \in {AnyOp} : word = <<IF kind = "map" THEN Tok("start", o, FALSE, lib) ELSE Tok("base", None, FALSE, lib)>>
                               /\ prog = IF kind = "map" THEN <<o>> ELSE <<>>
GNext == \/ /\ goal > Len(word)
            /\ \/ \E t \in {"post", "pre"}, far \in BOOLEAN : (t = "post" \/ kind = "map") /\ \E o \in {AnyOp} : Push(Tok(t, o, far, lib))
               \/ Invert
               \/ Cross
            /\ UNCHANGED <<n, cond, goal>>
         \/ Stop
GSpec == GInit /\ [][GNext]_vars
Xs == {[i \in 1..n |-> 4096 * ((i * 3) - 4)], [i \in 1..n |-> 4096 * (7 - (i * i))]}
C == <<2, 1>>
(* the state is the meaning of the word *)
Replays == Meaning(word) = <<lib, prog>>
(* going there and back changes neither the point nor the accumulated volume *)
RoundTrip == \A x \in Xs : LET y == Fwd(prog, 4096, C, x) IN Run(RevFlip(prog), 4096, C, y) = [x |-> x, ld |-> 0]
(* inverting exchanges the directions *)
Inverts == \A x \in Xs : Bwd(prog, 4096, C, x) = Fwd(RevFlip(prog), 4096, C, x) /\ RevFlip(RevFlip(prog)) = prog
(* crossing twice is no step at all, crossing once keeps the meaning *)
CrossKeeps == [][(goal' > 0 /\ \E t \in {word'[Len(word')]} : t.t = "bridge") => (prog' = prog /\ lib' # lib)]_vars
Volume == \A x, y \in Xs : Fwd(prog, 4096, C, x).ld = Fwd(prog, 4096, C, y).ld
Gen == goal = 0 => PrintT("CASE " \o ToJson([word |-> word, n |-> n, cond |-> cond, kind |-> kind, lib |-> lib]))
=============================================================================
