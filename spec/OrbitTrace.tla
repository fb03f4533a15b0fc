----------------------------- MODULE OrbitTrace -----------------------------
(* Validates recorded applications of real bijections against Orbit.  The
   chart remembers what was observed at each position; every later visit, by
   whatever route, must find the same point and the same log-density.       *)
EXTENDS TraceLib
VARIABLES pos, hi, word, chart, hdr, l, bad
M == INSTANCE Orbit WITH His <- 1..3, Len0 <- 100
vs == <<pos, hi, word, chart, hdr, l, bad>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1

Init == pos = 0 /\ hi = 1 /\ word = <<>> /\ chart = <<>> /\ hdr = [event |-> <<>>] /\ l = 1 /\ bad = <<>>
EventAt(h, p) == IF p = 0 THEN h.event ELSE h.oevent
ShapesOk(h, p) == /\ e.xshape = h.batch \o EventAt(h, p)
                  /\ e.ldshape = h.batch
Begin == /\ e.ev = "Begin"
         /\ pos' = 0 /\ hi' = e.hi /\ word' = <<>> /\ hdr' = e
         /\ chart' = (0 :> [x |-> e.x, ld |-> e.ld])
         /\ Note(<< <<"finite-start", AllFin(e.x) /\ AllFin(e.ld)>>, <<"start-shapes", ShapesOk(e, 0)>> >>)
Step == /\ e.ev = "Step"
        /\ M!Step(e.op)
        /\ UNCHANGED hdr
        /\ LET known == pos' \in DOMAIN chart
               at == IF known THEN chart[pos'] ELSE [x |-> e.x, ld |-> e.ld] IN
           /\ chart' = IF known THEN chart ELSE chart @@ (pos' :> at)
           /\ Note(<< <<"finite", AllFin(e.x) /\ AllFin(e.ld)>>,
                      <<"same-point", CloseSeq(e.x, at.x, hdr.tol)>>,
                      <<"same-log-density", CloseSeq(e.ld, at.ld, hdr.tol)>>,
                      <<"shapes", ShapesOk(hdr, pos')>>,
                      <<"dtype", e.dtype = hdr.dtype>> >>)
Err == e.ev = "Error" /\ UNCHANGED <<pos, hi, word, chart, hdr>> /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED <<pos, hi, word, chart, hdr, bad>>
Next == (l <= Len(Trace) /\ (Begin \/ Step \/ Err)) \/ Done
Spec == Init /\ [][Next]_vs
=============================================================================
