---------------------------- MODULE ComposeTrace ----------------------------
(* Judges recorded runs of real bijection programs against the exact meaning
   given by Compose.  x and y are in units of 1/S, log-densities in units of
   log 2; pts is a sequence of points (one per batch element).              *)
EXTENDS TraceLib
VARIABLES stack, word, l, bad
M == INSTANCE Compose WITH MaxTok <- 0, MaxSize <- 0
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == stack = <<>> /\ word = <<>> /\ l = 1 /\ bad = <<>>
Want(i) == M!Eval(e.prog, 0, e.fwd, [x |-> e.xs[i], ld |-> e.lds[i]], e.kw, e.args)
Run == /\ e.ev = "Run"
       /\ Note(<< <<"points-of-the-program", Len(e.ys) = Len(e.xs) /\ \A i \in DOMAIN e.xs : EqSeq(e.ys[i], Want(i).x)>>,
                  <<"log-densities-of-the-program", Len(e.ldos) = Len(e.lds) /\ \A i \in DOMAIN e.xs : e.ldos[i] = Want(i).ld>>,
                  <<"batch-shape", e.yshape = e.xshape /\ e.ldshape = SubSeq(e.xshape, 1, Len(e.xshape) - 1)>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED bad
Next == ((l <= Len(Trace) /\ (Run \/ Err)) \/ Done) /\ UNCHANGED <<stack, word>>
Spec == Init /\ [][Next]_<<stack, word, l, bad>>
=============================================================================
