------------------------------ MODULE ExecTrace -----------------------------
(* Follows a tensor of points through Exec and compares every evaluation with
   what the module makes of each point alone.                                *)
EXTENDS TraceLib
VARIABLES sh, lay, ver, word, ref, l, bad
E == INSTANCE Exec
mv == <<sh, lay, ver, word>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1 /\ word' = word
Init == E!EInit /\ ref = <<>> /\ l = 1 /\ bad = <<>>
New == e.ev = "New" /\ sh' = <<>> /\ lay' = <<>> /\ ver' = 0 /\ ref' = <<>> /\ Note(<<>>)
Begin == e.ev = "Begin" /\ E!Begin(e.s) /\ ref' = ref /\ Note(<<>>)
Lay == e.ev = "Lay" /\ E!Arrange(e.t, e.a, e.b) /\ ref' = ref /\ Note(<<>>)
(* the module handed on through its state *)
Hand == e.ev = "Hand" /\ E!Hand /\ ref' = ref /\ Note(<< <<"handing-on-keeps-the-parameters", e.kept>> >>)
Update == e.ev = "Update" /\ E!Update(e.v) /\ ref' = ref /\ Note(<< <<"copies-are-updated-on-their-own", e.apart>> >>)
(* every point evaluated alone: results and log-density *)
Ref == e.ev = "Ref" /\ UNCHANGED <<sh, lay, ver>> /\ ref' = Append(ref, [k |-> <<e.dir, e.ver>>, y |-> e.y, ld |-> e.ld]) /\ Note(<<>>)
Known(k) == CHOOSE i \in DOMAIN ref : ref[i].k = k
Eval == /\ e.ev = "Eval" /\ E!Evaluate /\ ref' = ref
        /\ LET t == E!Peel(E!Here, e.peel)
               r == ref[Known(<<e.dir, ver>>)]
           IN Note(<< <<"batch-shape-is-kept", e.shape = t.s /\ e.lshape = t.s /\ e.event>>,
                      <<"every-point-gets-its-own-result", Len(e.y) = Len(t.f) /\ \A p \in DOMAIN t.f : CloseSeq(e.y[p], r.y[t.f[p]], e.tol)>>,
                      <<"every-point-gets-its-own-density", Len(e.ld) = Len(t.f) /\ \A p \in DOMAIN t.f : Close(e.ld[p], r.ld[t.f[p]], e.tol)>>,
                      <<"evaluation-alters-no-parameter", e.kept>> >>)
Err == e.ev = "Error" /\ UNCHANGED <<sh, lay, ver, ref>> /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED <<mv, ref, bad>>
Next == (l <= Len(Trace) /\ (New \/ Begin \/ Lay \/ Hand \/ Update \/ Ref \/ Eval \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<mv, ref, l, bad>>
=============================================================================
