--------------------------- MODULE BufferedTrace ---------------------------
(* Validates recorded histories of bijx.BufferedSampler against Buffered.

   "New" carries the source's table: tab[c] is the list of samples call c
   produced (each a record of projected value x and log-density ld), so the
   abstract sample <<c, i>> stands for tab[c][i].                           *)
EXTENDS TraceLib
VARIABLES n, calls, buf, left, out, word, tab, l, bad
M == INSTANCE Buffered WITH Sizes <- 1..16, MaxBatch <- 1000000

e == Trace[l]
Tol == 64
Same(s, t) == CloseSeq(s.x, t.x, Tol) /\ Close(s.ld, t.ld, Tol)
Ent(id) == IF id[1] \in DOMAIN tab /\ id[2] \in DOMAIN tab[id[1]]
           THEN tab[id[1]][id[2]] ELSE [x |-> <<NaN>>, ld |-> NaN]

Init == n = 1 /\ calls = 0 /\ buf = 0 /\ left = 1 /\ out = <<>> /\ word = <<>>
        /\ tab = <<>> /\ l = 1 /\ bad = <<>>

Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1

New == e.ev = "New" /\ n' = e.n /\ calls' = 0 /\ buf' = 0 /\ left' = e.n
       /\ out' = <<>> /\ word' = <<>> /\ tab' = e.tab /\ Note(<<>>)
Last == out'[Len(out')]
Single == /\ e.ev = "Single"
          /\ M!Single
          /\ UNCHANGED tab
          /\ LET want == Ent(Last) IN
             Note(<< <<"delivers-next-buffered-sample", CloseSeq(e.s.x, want.x, Tol)>>,
                     <<"log-density-belongs-to-sample", Close(e.s.ld, want.ld, Tol)>>,
                     <<"sample-has-event-shape", e.xshape = e.eshape /\ e.ldshape = <<>> >>,
                     <<"draws-only-when-exhausted", e.calls < 0 \/ e.calls = calls'>> >>)
Batch == /\ e.ev = "Batch"
         /\ M!Batch
         /\ UNCHANGED tab
         /\ Note(<< <<"batch-comes-from-one-fresh-call",
                      /\ Len(e.ss) = ProdSeq(e.bshape)
                      /\ \A i \in DOMAIN e.ss : Same(e.ss[i], Ent(<<calls + 1, i>>))>>,
                    <<"batch-shape", e.xshape = e.bshape \o e.eshape /\ e.ldshape = e.bshape>>,
                    <<"batch-calls-source-once", e.calls < 0 \/ e.calls = calls'>> >>)
Dens == /\ e.ev = "Dens"
        /\ UNCHANGED <<n, calls, buf, left, out, tab, word>>
        /\ Note(<< <<"density-is-the-source's", CloseSeq(e.got, e.want, Tol)>> >>)
Err == /\ e.ev = "Error"
       /\ UNCHANGED <<n, calls, buf, left, out, tab, word>>
       /\ Note(<< <<"no-exception", FALSE>> >>)
Done == /\ l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1
        /\ UNCHANGED <<n, calls, buf, left, out, tab, word, bad>>
Next == (l <= Len(Trace) /\ (New \/ Single \/ Batch \/ Dens \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<n, calls, buf, left, out, word, tab, l, bad>>
=============================================================================
