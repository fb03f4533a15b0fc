------------------------------ MODULE DistTrace -----------------------------
(* Judges recorded histories and scores of real distributions.               *)
EXTENDS TraceLib
VARIABLES drawn, seed, calls, seen, chart, last, stack, word, l, bad
D == INSTANCE Dist WITH Keys <- {}, Shapes <- {}, Seeds <- {}, MaxCalls <- 0
P == INSTANCE Compose WITH MaxTok <- 0, MaxSize <- 0
hv == <<drawn, seed, calls, seen>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
NoRec == [x |-> <<>>, ld |-> <<>>]
Init == D!Start(1) /\ chart = <<>> /\ last = NoRec /\ stack = <<>> /\ word = <<>> /\ l = 1 /\ bad = <<>>
Keep == UNCHANGED <<stack, word>>

New == e.ev = "New" /\ drawn' = <<>> /\ seed' = e.seed /\ calls' = <<>> /\ seen' = <<>> /\ chart' = <<>> /\ last' = NoRec /\ Keep /\ Note(<<>>)
Rec == [x |-> e.x, ld |-> e.ld]
Drew(t) ==
   LET same == IF \E i \in DOMAIN chart : chart[i].t = t THEN SelectSeq(chart, LAMBDA c : c.t = t) ELSE <<>>
       other == SelectSeq(chart, LAMBDA c : c.t.own = t.own /\ <<c.t.key, Len(c.t.shapes)>> # <<t.key, Len(t.shapes)>> /\ Len(c.r.x) = Len(e.x)) IN
   /\ chart' = Append(chart, [t |-> t, r |-> Rec]) /\ last' = Rec
   /\ Note(<< <<"same-call-same-samples", \A i \in DOMAIN same : same[i].r = Rec>>,
              <<"different-keys-different-samples", e.x = <<>> \/ \A i \in DOMAIN other : other[i].r.x # e.x>>,
              <<"elements-of-a-batch-differ", \A i, j \in DOMAIN e.rows : i # j => e.rows[i] # e.rows[j]>>,
              <<"samples-have-batch-and-event-shape", e.xshape = e.bshape \o e.eshape>>,
              <<"one-log-density-per-sample", e.ldshape = e.bshape /\ e.rshape = e.bshape /\ e.got = e.bshape>>,
              <<"log-density-returned-is-that-of-the-sample", AllFin(e.ld) /\ CloseSeq(e.ld, e.rescored, e.tol)>>,
              <<"density-is-the-exponential", CloseSeq(e.dens, e.expld, 64)>> >>)
KeyDraw == e.ev = "Draw" /\ e.op = "key" /\ D!Draw(e.k, e.b) /\ Keep /\ Drew(D!KeyTok(e.k, e.b))
OwnDraw == e.ev = "Draw" /\ e.op = "own" /\ D!Own(e.b) /\ Keep /\ Drew(D!OwnTok(e.b))
Copied == e.ev = "Copy" /\ D!Copy(e.k) /\ Keep /\ UNCHANGED <<chart, last>> /\ Note(<<>>)
Scored == e.ev = "Score" /\ D!Score /\ Keep /\ UNCHANGED <<chart, last>>
          /\ Note(<< <<"score-of-earlier-samples-unchanged", CloseSeq(e.ld, last.ld, e.tol)>> >>)

(* exact densities: log 2 and log(2 pi)/2 in units of 2^-20 *)
LN2 == 726817
HL2PI == 963577
Base(p, z) == IF p.fam = "uniform" THEN D!Uniform(P!S, z) ELSE D!Normal(p.mean, p.L, [i \in DOMAIN z |-> z[i] \div P!S])
Want(i) == LET r == IF e.prog.k = "id" THEN [x |-> e.ys[i], ld |-> 0] ELSE P!Eval(e.prog, 0, FALSE, [x |-> e.ys[i], ld |-> 0], e.kw, <<>>)
               b == Base(e.base, r.x) IN
           IF ~b.inside THEN NInf ELSE 0 - (b.q * (Unit \div 2)) - (b.n * HL2PI) - ((b.e + r.ld) * LN2)
Exact == /\ e.ev = "Exact" /\ Keep /\ UNCHANGED <<hv, chart, last>>
         /\ Note(<< <<"log-density-is-the-closed-form", Len(e.ld) = Len(e.ys) /\ \A i \in DOMAIN e.ys : Close(e.ld[i], Want(i), 64)>>,
                    <<"one-log-density-per-element", e.ldshape = e.bshape>> >>)
(* n draws, counted in eight cells of equal probability, and sums of products *)
Counted == /\ e.ev = "Counts" /\ Keep /\ UNCHANGED <<hv, chart, last>>
           /\ Note(<< <<"frequencies-of-the-cells", \A i \in DOMAIN e.cnt : SumSeq(e.cnt[i]) = e.n /\ \A b \in 1..8 : (8 * e.cnt[i][b] - e.n) * (8 * e.cnt[i][b] - e.n) <= 36 * 7 * e.n>>,
                      <<"components-and-draws-uncorrelated", \A i \in DOMAIN e.cor : Abs(e.cor[i]) <= 6 * Unit>> >>)
Err == e.ev = "Error" /\ Keep /\ UNCHANGED <<hv, chart, last>> /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED <<hv, chart, last, stack, word, bad>>
Next == (l <= Len(Trace) /\ (New \/ KeyDraw \/ OwnDraw \/ Copied \/ Scored \/ Exact \/ Counted \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<hv, chart, last, stack, word, l, bad>>
=============================================================================
