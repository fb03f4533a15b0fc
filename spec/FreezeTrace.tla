---------------------------- MODULE FreezeTrace -----------------------------
(* Follows the building and the history of a real module through Freeze and
   judges the parameters found in it; judges how constructors wrap what they
   are given.                                                                *)
EXTENDS TraceLib
VARIABLES stack, cls, frz, val, word, l, bad
F == INSTANCE Freeze WITH Classes <- {}, Wraps <- {}, Fields <- {}, MaxLeaves <- 0, MaxStack <- 0
mv == <<stack, cls, frz, val, word>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1 /\ word' = word
Init == F!FInit /\ l = 1 /\ bad = <<>>
New == e.ev = "New" /\ stack' = <<>> /\ cls' = <<>> /\ frz' = <<>> /\ val' = <<>> /\ Note(<<>>)
Build == /\ e.ev = "Build" /\ Note(<<>>)
         /\ CASE e.t = "leaf" -> F!PushLeaf(e.x) [] e.t = "join" -> F!Join [] e.t = "twice" -> F!Twice [] OTHER -> F!WrapTop(e.t)
Hist == /\ e.ev = "Hist" /\ Note(<<>>)
        /\ CASE e.t \in {"update", "noise", "grad"} -> F!Update(e.filter, e.d) [] e.t = "freeze" -> F!FreezeAll [] OTHER -> F!Keep
(* parameters as <<number, change, class>>: every one once, with its value *)
Found(s) == Len(s) = Len(cls) /\ {s[i][1] : i \in DOMAIN s} = F!Ids
State == /\ e.ev = "State" /\ UNCHANGED <<stack, cls, frz, val>>
         /\ Note(<< <<"every-parameter-is-there-once", Found(e.leaves)>>,
                    <<"only-selected-parameters-change", \A i \in DOMAIN e.leaves : e.leaves[i][1] \in F!Ids => e.leaves[i][2] = val[e.leaves[i][1]]>>,
                    <<"classes-are-kept", \A i \in DOMAIN e.leaves : e.leaves[i][1] \in F!Ids => e.leaves[i][3] = cls[e.leaves[i][1]]>> >>)
Split == /\ e.ev = "Split" /\ UNCHANGED <<stack, cls, frz, val>>
         /\ Note(<< <<"filters-select-exactly-their-parameters", LET g == F!Split(e.fs) IN
                         Len(e.groups) = Len(g) /\ \A k \in DOMAIN g : Range(e.groups[k]) = g[k] /\ Len(e.groups[k]) = Cardinality(g[k])>>,
                    <<"gradients-are-those-of-the-trainable-ones", e.grads = <<0>> \/ Range(e.grads) = F!Selected(F!Trainable)>> >>)
(* real noise: <<number, change, change at twice the scale>>, changes of single elements in units 2^-20 *)
Noise == /\ e.ev = "Noise" /\ UNCHANGED <<stack, cls, frz, val>>
         /\ Note(<< <<"noise-reaches-only-the-chosen-kind", \A i \in DOMAIN e.d : e.d[i][1] \notin F!Selected(e.filter) => e.d[i][2] = 0 /\ e.d[i][3] = 0>>,
                    <<"noise-reaches-all-of-the-chosen-kind", \A i \in DOMAIN e.d : e.d[i][1] \in F!Selected(e.filter) => e.d[i][2] # 0>>,
                    <<"noise-is-proportional-to-its-scale", \A i \in DOMAIN e.d : Close(e.d[i][3], 2 * e.d[i][2], 64)>>,
                    <<"noise-differs-between-parameters", Cardinality({e.d[i][2] : i \in DOMAIN e.d} \ {0}) = Cardinality({i \in DOMAIN e.d : e.d[i][2] # 0})>>,
                    <<"the-original-keeps-its-parameters", e.kept>>, <<"same-key-same-noise", e.again>> >>)
(* arguments as <<kind, shape, number>>, variables found as <<class, shape, number>> (0: not one of the given values) *)
ClassOf(k) == CASE k \in {"array", "nparray", "shape", "listshape"} -> e.default [] OTHER -> k
Want == [i \in DOMAIN e.args |-> <<ClassOf(e.args[i][1]), e.args[i][2], IF e.args[i][1] \in {"shape", "listshape"} THEN 0 ELSE e.args[i][3]>>]
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Wrap == /\ e.ev = "Wrap" /\ UNCHANGED <<stack, cls, frz, val>>
        /\ Note(<< <<"arguments-become-the-variables-they-should", Len(e.got) = Len(e.args) /\ \A i \in DOMAIN Want : Count(e.got, Want[i]) = Count(Want, Want[i])>>,
                   <<"given-variables-are-used-themselves", e.same>> >>)
Err == e.ev = "Error" /\ UNCHANGED <<stack, cls, frz, val>> /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED <<mv, bad>>
Next == (l <= Len(Trace) /\ (New \/ Build \/ Hist \/ State \/ Split \/ Noise \/ Wrap \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<mv, l, bad>>
=============================================================================
