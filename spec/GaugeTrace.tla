----------------------------- MODULE GaugeTrace -----------------------------
(* Judges recorded operations on gauge fields: "Start" begins an episode, every
   operation must lead to exactly the field of the specification.            *)
EXTENDS TraceLib
VARIABLES L, U, act, l, bad
M == INSTANCE Gauge
e == Trace[l]
vs == <<L, U, act, l, bad>>
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == L = <<1>> /\ U = <<>> /\ act = 0 /\ l = 1 /\ bad = <<>>
Keep == UNCHANGED <<L, U, act>>
(* log probability recorded with beta = 2 N: twice the plaquette sum          *)
Acts(a) == << <<"log-probability-is-the-plaquette-sum", e.logp = <<2 * a>> /\ e.action = <<0 - 2 * a>> >> >>
Start == /\ e.ev = "Start" /\ L' = e.L /\ U' = e.U /\ act' = M!ActionSum(e.L, e.U) /\ Note(Acts(act'))
Op == /\ e.ev = "Op"
      /\ L' = M!NewL(L, e.op) /\ U' = M!Apply(L, U, e.op, e.G) /\ UNCHANGED act
      /\ Note(<< <<"links-after-" \o e.op[1], e.U = U'>>,
                 <<"lattice-after-" \o e.op[1], e.L = L'>>,
                 <<"action-invariant-under-" \o e.op[1], act = M!ActionSum(L', U')>> >> \o Acts(act))
(* batches: one row per configuration *)
Batch == /\ e.ev = "Batch" /\ Keep
         /\ Note(<< <<"one-value-per-configuration", e.bshape = e.b /\ e.logp = [i \in DOMAIN e.U |-> 2 * M!ActionSum(e.L, e.U[i])]>>,
                    <<"gauge-transformation-of-each-configuration", e.V = [i \in DOMAIN e.U |-> M!Gauge(e.L, e.U[i], e.G)]>> >>)
Beta == /\ e.ev = "Beta" /\ Keep
        /\ LET a == M!ActionSum(e.L, e.U) IN
           Note(<< <<"linear-in-the-coupling", \A i \in DOMAIN e.beta : e.logp[i] = e.beta[i] * a>> >>)
(* generic group elements: invariance in fixed point *)
Float == /\ e.ev = "Float" /\ Keep
         /\ Note(<< <<"invariant-for-generic-matrices", AllFin(e.before) /\ CloseSeq(e.after, e.before, 200)>>,
                    <<"inverse-restores-the-field", CloseSeq(e.back, e.field, 40)>> >>)
Err == e.ev = "Error" /\ Keep /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ Keep /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Start \/ Op \/ Batch \/ Beta \/ Float \/ Err)) \/ Done
Spec == Init /\ [][Next]_vs
=============================================================================
