------------------------------- MODULE MCDist ------------------------------
EXTENDS Dist, TLC, Json
CONSTANT Modes
VARIABLES phase, L, mean, w
mvars == <<drawn, seed, calls, seen, phase, L, mean, w>>
(* Two kinds of behaviour: histories, and densities of small factors. *)
Diag == {1, 2, 4}
Off == {0 - 1, 0, 2}
Init == \/ "history" \in Modes /\ phase = "history" /\ HInit /\ L = <<>> /\ mean = <<>> /\ w = <<>>
        \/ /\ "density" \in Modes /\ phase = "density" /\ Start(1)
           /\ L \in {<<<<a, 0>>, <<b, c>>>> : a \in Diag, b \in Off, c \in Diag}
           /\ mean \in {<<0, 0>>, <<1, 0 - 2>>} /\ w \in {<<a, b>> : a \in -2..2, b \in -1..2}
Next == phase = "history" /\ HNext /\ UNCHANGED <<phase, L, mean, w>>
Spec == Init /\ [][Next]_mvars
(* a draw repeats an earlier one exactly when it is the same call to the same generator state *)
Deterministic == \A i, j \in 1..Len(calls) :
   (calls[i].op = "key" /\ calls[j].op = "key") => (seen[i] = seen[j] <=> calls[i] = calls[j])
FreshDraws == \A i, j \in 1..Len(calls) :
   (i < j /\ calls[i].op = "own" /\ calls[j].op = "own" /\ \A k \in i..j : calls[k].op # "copy") => seen[i] # seen[j]
Replays == \A i, j \in 1..Len(calls) :
   (i < j /\ calls[i].op = "own" /\ calls[j].op = "own" /\ seen[i] = seen[j]) => \E k \in i..j : calls[k].op = "copy"
Whitens == phase = "density" => Sub(L, Mul(L, w, mean, 2), mean, 2) = w
Scores == phase = "density" => Normal(mean, L, Mul(L, w, mean, 2)).q = SqN(w, 2)
Gen == (phase = "history" /\ Len(calls) = MaxCalls) => PrintT("CASE " \o ToJson([calls |-> calls]))
=============================================================================
