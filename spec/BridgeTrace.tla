----------------------------- MODULE BridgeTrace ----------------------------
(* Judges maps and distributions recorded after every word of bridge crossings,
   compositions and inversions against the program the word means.           *)
EXTENDS TraceLib
VARIABLES lib, prog, word, kind, l, bad
M == INSTANCE Bridge WITH MaxTok <- 0
bv == <<lib, prog, word, kind>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
LN2 == 726817
HL2PI == 963577
Init == lib = "B" /\ prog = <<>> /\ word = <<>> /\ kind = "map" /\ l = 1 /\ bad = <<>>
Word == /\ e.ev = "Word" /\ LET s == M!Meaning(e.word) IN
             /\ lib' = s[1] /\ prog' = s[2] /\ word' = e.word /\ kind' = e.kind
             /\ Note(<< <<"object-lives-in-the-library-of-the-word", e.lib = s[1]>> >>)
Want(i) == IF e.fwd THEN M!Fwd(prog, e.S, e.cs[i], e.xs[i]) ELSE M!Bwd(prog, e.S, e.cs[i], e.xs[i])
(* bijx subtracts the logarithm of the volume factor from what it is given, flowjax returns it *)
WantLd(i) == IF lib = "B" THEN e.ld0[i] - (Want(i).ld * LN2) ELSE Want(i).ld * LN2
Apply == /\ e.ev = "Apply" /\ UNCHANGED bv
         /\ Note(<< <<"point-is-the-image-under-the-wrapped-map", Len(e.ys) = Len(e.xs) /\ \A i \in DOMAIN e.xs : EqSeq(e.ys[i], Want(i).x)>>,
                    <<"log-density-follows-the-receiving-library", e.lds = <<>> \/ (Len(e.lds) = Len(e.xs) /\ \A i \in DOMAIN e.xs : Close(e.lds[i], WantLd(i), 16))>>,
                    <<"shapes-are-batch-and-event", e.yshape = e.bshape \o e.eshape /\ (e.lds = <<>> \/ e.ldshape = e.bshape)>> >>)
Z(i) == M!Bwd(prog, e.S, e.cs[i], e.xs[i])
WantLp(i) == LET z == [j \in DOMAIN e.xs[i] |-> Z(i).x[j] \div e.S] IN
             0 - (SumSeq([j \in DOMAIN z |-> z[j] * z[j]]) * (Unit \div 2)) - (Len(z) * HL2PI) + (Z(i).ld * LN2)
Score == /\ e.ev = "Score" /\ UNCHANGED bv
         /\ Note(<< <<"log-density-is-the-closed-form", Len(e.lds) = Len(e.xs) /\ \A i \in DOMAIN e.xs : Close(e.lds[i], WantLp(i), 64)>>,
                    <<"one-log-density-per-element", e.ldshape = e.bshape>> >>)
(* sampling through the flowjax interface *)
Drawn == /\ e.ev = "FDraw" /\ UNCHANGED bv
         /\ Note(<< <<"sampled-log-density-is-that-of-the-sample", AllFin(e.ld) /\ CloseSeq(e.ld, e.rescored, 64)>>,
                    <<"sample-alone-is-the-same-sample", e.again = e.x /\ e.alone = e.x>>,
                    <<"other-keys-other-samples", e.other # e.x>>,
                    <<"elements-differ", \A i, j \in DOMAIN e.x : i # j => e.x[i] # e.x[j]>>,
                    <<"shapes-are-sample-condition-event", e.xshape = e.bshape \o e.eshape /\ e.ldshape = e.bshape>> >>)
Err == e.ev = "Error" /\ UNCHANGED bv /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED <<bv, bad>>
Next == (l <= Len(Trace) /\ (Word \/ Apply \/ Score \/ Drawn \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<bv, l, bad>>
=============================================================================
