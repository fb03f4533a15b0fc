------------------------------ MODULE MCFreeze ------------------------------
EXTENDS Freeze, TLC, Json
CONSTANTS Goal, MaxOps, Deltas
VARIABLES ops, seen
vars == <<fvars, ops, seen>>
Leafs == {<<a>> : a \in Classes} \cup {<<a, b>> : a, b \in Classes}
Tok(t, x) == [t |-> t, x |-> x]
W(t, x) == word' = Append(word, Tok(t, x)) /\ UNCHANGED <<ops, seen>>
Building == ops = 0 /\ Len(word) < Goal
Atoms == {[f |-> "is", c |-> c] : c \in Classes} \cup {Frozen, [f |-> "all"]}
Filters == Atoms \cup {[f |-> "not", a |-> a] : a \in Atoms} \cup {Trainable} \cup {[f |-> "any", a |-> Param, b |-> a] : a \in Atoms}
Few == {Param, Trainable, Frozen, [f |-> "not", a |-> Frozen]}
Init == FInit /\ ops = 0 /\ seen = <<>>
Build == \/ (Len(cls) < MaxLeaves /\ Len(stack) < MaxStack /\ \E c \in Leafs : PushLeaf(c) /\ W("leaf", c))
         \/ (\E w \in Wraps : WrapTop(w) /\ W(w, <<>>))
         \/ (Join /\ W("join", <<>>)) \/ (Twice /\ W("twice", <<>>))
Finished == Len(stack) = 1
Hist(t, F, d) == word' = Append(word, [t |-> t, filter |-> F, d |-> d]) /\ ops' = ops + 1 /\ seen' = seen
Operate == Finished /\ ops < MaxOps /\
   \/ (\E F \in Few, d \in Deltas, t \in {"update", "grad"} : (t = "grad" => F = Trainable) /\ Update(F, d) /\ Hist(t, F, d))
   \/ (FreezeAll /\ Hist("freeze", Frozen, 0))
   \/ (Keep /\ Hist("copy", Frozen, 0))
Next == (Building /\ Build) \/ Operate
Spec == Init /\ [][Next]_vars
(* every parameter belongs to exactly one module on the stack *)
Owned == \A i \in Ids : Cardinality({k \in DOMAIN stack : i \in stack[k]}) = 1
(* nothing frozen or constant is ever trainable, all other parameters are *)
Sound == \A i \in Ids : (i \in Selected(Trainable)) = (cls[i] = "param" /\ ~frz[i])
Partition == (Finished /\ ops = 0) => \A F, G \in Filters : LET s == Split(<<F, G>>) IN
   /\ s[1] \cup s[2] \cup s[3] = Ids /\ s[1] \cap s[2] = {} /\ s[2] \cap s[3] = {} /\ s[1] \cap s[3] = {}
   /\ s[1] = Selected(F) /\ s[2] = Selected(G) \ Selected(F)
(* training never moves what is frozen at the time; freezing is for good *)
Stays == [][(ops' > ops /\ word'[Len(word')].t = "grad") => \A i \in Ids : (frz[i] \/ cls[i] # "param") => val'[i] = val[i]]_vars
Forever == [][\A i \in Ids : frz[i] => frz'[i]]_vars
OnlySelected == [][ops' > ops => \A i \in Ids : val'[i] # val[i] => i \in Selected(word'[Len(word')].filter)]_vars
(* random programs *)
One(S) == {RandomElement(S)}
AnyFilter == LET k == RandomElement(1..5) IN CASE k = 1 -> RandomElement(Atoms) [] k = 2 -> RandomElement(Filters) [] k = 3 -> Trainable [] k = 4 -> Param [] OTHER -> RandomElement({[f |-> "both", a |-> a, b |-> b] : a, b \in Filters})
GBuild == \/ (Len(cls) < MaxLeaves /\ Len(stack) < MaxStack /\ \E c \in One(Leafs) : PushLeaf(c) /\ W("leaf", c))
          \/ (\E w \in Wraps : WrapTop(w) /\ W(w, <<>>))
          \/ (Join /\ W("join", <<>>)) \/ (Join /\ W("join", <<>>)) \/ (RandomElement(1..3) = 1 /\ Twice /\ W("twice", <<>>))
GOperate == Finished /\ ops < MaxOps /\
   \/ (\E F \in One({AnyFilter}), d \in One(Deltas), t \in {"update", "noise"} : Update(F, d) /\ Hist(t, F, d))
   \/ (\E d \in One(Deltas) : Update(Trainable, d) /\ Hist("grad", Trainable, d))
   \/ (RandomElement(1..4) = 1 /\ FreezeAll /\ Hist("freeze", Frozen, 0))
   \/ (\E F, G \in One({AnyFilter}) : Keep /\ word' = Append(word, [t |-> "split", fs |-> <<F, AnyFilter>>]) /\ ops' = ops + 1 /\ seen' = seen)
   \/ (Keep /\ Hist("copy", Frozen, 0))
GNext == (Building /\ GBuild) \/ ((Len(word) >= Goal \/ RandomElement(1..6) = 1) /\ GOperate) \/ (Len(word) >= Goal /\ Len(stack) > 1 /\ ops = 0 /\ Join /\ W("join", <<>>))
GSpec == Init /\ [][GNext]_vars
Gen == ops = MaxOps => PrintT("CASE " \o ToJson([word |-> word]))
=============================================================================
