------------------------------- MODULE Freeze -------------------------------
(* Parameters of nested modules: which of them a filter selects, and what
   selecting, updating, merging, freezing and adding noise does to their values.

   A module is built by a word in postfix form (stack machine).  The state keeps
   for every module on the stack the set of its parameters, and for every
   parameter its class and whether it lies in a frozen part.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Classes, Wraps, Fields, MaxLeaves, MaxStack
VARIABLES stack, cls, frz, val, word
fvars == <<stack, cls, frz, val, word>>
Ids == 1..Len(cls)
(* filters: [f |-> "is", c], "frozen", "all", "none", [f |-> "not", a], [f |-> "any", a, b], [f |-> "both", a, b] *)
RECURSIVE Match(_, _, _)
Match(F, c, z) == CASE F.f = "is" -> c = F.c [] F.f = "const" -> c = "const" [] F.f = "frozen" -> c = "const" \/ z
                    [] F.f = "all" -> TRUE [] F.f = "none" -> FALSE
                    [] F.f = "not" -> ~Match(F.a, c, z) [] F.f = "any" -> Match(F.a, c, z) \/ Match(F.b, c, z) [] F.f = "both" -> Match(F.a, c, z) /\ Match(F.b, c, z)
Param == [f |-> "is", c |-> "param"]
Frozen == [f |-> "frozen"]
Trainable == [f |-> "both", a |-> Param, b |-> [f |-> "not", a |-> Frozen]]
Selected(F) == {i \in Ids : Match(F, cls[i], frz[i])}
(* groups of a split: every parameter goes with the first filter that wants it *)
Group(Fs, i) == IF \E k \in DOMAIN Fs : Match(Fs[k], cls[i], frz[i])
                THEN CHOOSE k \in DOMAIN Fs : Match(Fs[k], cls[i], frz[i]) /\ \A j \in 1..(k - 1) : ~Match(Fs[j], cls[i], frz[i])
                ELSE Len(Fs) + 1
Split(Fs) == [k \in 1..(Len(Fs) + 1) |-> {i \in Ids : Group(Fs, i) = k}]
FInit == stack = <<>> /\ cls = <<>> /\ frz = <<>> /\ val = <<>> /\ word = <<>>
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
(* building tokens *)
PushLeaf(cs) == /\ stack' = Append(stack, {Len(cls) + k : k \in DOMAIN cs}) /\ cls' = cls \o cs
                /\ frz' = frz \o [k \in DOMAIN cs |-> FALSE] /\ val' = val \o [k \in DOMAIN cs |-> 0]
Mark(S) == [i \in Ids |-> frz[i] \/ i \in S]
(* a wrapper keeps its parameters; Frozen and anything stored under the name "frozen" freezes them *)
WrapTop(w) == stack # <<>> /\ frz' = (IF w \in {"frozen", "field"} THEN Mark(Top) ELSE frz) /\ UNCHANGED <<stack, cls, val>>
Join == Len(stack) > 1 /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), Top \cup stack[Len(stack) - 1]) /\ UNCHANGED <<cls, frz, val>>
(* the same module placed twice: its parameters are there once *)
Twice == stack # <<>> /\ UNCHANGED <<stack, cls, frz, val>>
(* history tokens on the finished module *)
Update(F, d) == val' = [i \in Ids |-> IF i \in Selected(F) THEN val[i] + d ELSE val[i]] /\ UNCHANGED <<stack, cls, frz>>
FreezeAll == frz' = [i \in Ids |-> TRUE] /\ UNCHANGED <<stack, cls, val>>
Keep == UNCHANGED <<stack, cls, frz, val>>
=============================================================================
