------------------------------- MODULE MCDiag -------------------------------
EXTENDS Diag, TLC, Json
CONSTANT MaxOps
VARIABLES word
Ops == Len(word)
(* samples and windows do not interact: either kind of history *)
Side == \/ (word = <<>>) \/ (word[1] = "push" <=> xs # <<>>)
MNext == Ops < MaxOps /\ DNext /\ word' = Append(word, last') /\ (word # <<>> => ((word[1] = "push") = (last' = "push")))
Spec == DInit /\ word = <<>> /\ [][MNext]_<<dvars, word>>
Some == smp # <<>> /\ Live(smp)
(* between one over n and one *)
EssBounds == Some => EssNum(smp) <= EssDen(smp) /\ Len(smp) * EssNum(smp) >= EssDen(smp)
(* one exactly for equal weights, one over n exactly for a single one *)
EssExtremes == Some => LET r == Rel(smp) IN
   /\ ((Len(r) = Len(smp) /\ \A i \in DOMAIN r : r[i] = r[1]) <=> EssNum(smp) = EssDen(smp))
   /\ ((Len(r) = 1) <=> Len(smp) * EssNum(smp) = EssDen(smp))
EssStable == [][(Some /\ last' \in {"norm", "swap", "twice"}) => EssNum(smp) * EssDen(smp') = EssNum(smp') * EssDen(smp)]_<<dvars, word>>
DklMoves == [][(smp # <<>> /\ last' \in {"norm", "swap"}) => DklN(smp', pn', qn') = DklN(smp, pn, qn) + (Len(smp) * ((qn' - qn) - (pn' - pn)))]_<<dvars, word>>
DklTwice == [][(last' = "twice") => DklN(smp', pn', qn') = 2 * DklN(smp, pn, qn)]_<<dvars, word>>
(* the running sum is the average over each window *)
WindowOk == (Len(xs) >= win) => outs = Averages(xs, win)
WindowShort == (Len(xs) < win /\ xs # <<>>) => Averages(xs, win) = <<sum>> /\ Divisor(xs, win) = Len(xs)
WindowLength == xs # <<>> => Len(Averages(xs, win)) = (IF (Len(xs) - win) + 1 > 1 THEN (Len(xs) - win) + 1 ELSE 1)
(* random histories: every operation with one random operand *)
One(S) == {RandomElement(S)}
Rnd(m, k, t, s) == [m |-> m, k |-> k, t |-> t, s |-> s]
Op(o) == word' = Append(word, o)
GDraw == Len(smp) < MaxN /\ (\E m \in One(Ms), k \in One(Ks), t, s \in One(Logs) : smp' = Append(smp, Rnd(m, k, t, s)) /\ Op([o |-> "draw", m |-> m, k |-> k, t |-> t, s |-> s])) /\ last' = "draw" /\ UNCHANGED <<pn, qn, win, xs, sum, outs>>
GNorm == (\E c \in One(Norms) : \E w \in One({"p", "q"}) : (IF w = "p" THEN pn' = c /\ qn' = qn ELSE qn' = c /\ pn' = pn) /\ Op([o |-> "norm", w |-> w, c |-> c])) /\ last' = "norm" /\ UNCHANGED <<smp, win, xs, sum, outs>>
GSwap == Len(smp) > 1 /\ (\E i, j \in One(DOMAIN smp) : i # j /\ smp' = Swap(i, j) /\ Op([o |-> "swap", i |-> i, j |-> j])) /\ last' = "swap" /\ UNCHANGED <<pn, qn, win, xs, sum, outs>>
GTwice == Twice /\ Op([o |-> "twice"])
GNext == /\ Ops < MaxOps
         /\ \/ (smp = <<>> /\ GDraw) \/ (smp # <<>> /\ (GDraw \/ GNorm \/ GSwap \/ GTwice))
GSpec == DInit /\ word = <<>> /\ [][GNext]_<<dvars, word>>
Gen == Ops = MaxOps => PrintT("CASE " \o ToJson([word |-> word]))
=============================================================================
