----------------------------- MODULE EmbedTrace -----------------------------
(* Judges recorded embeddings, lattice features and networks against the
   functions of Embed and Nets.  Reals are in units of 2^-16.               *)
EXTENDS TraceLib
VARIABLES emb, reds, vals, phase, net, h, pc, inp, l, bad
E == INSTANCE Embed WITH Kinds <- {}, Counts <- {}, Widths <- {}, Bases <- {}, MaxRed <- 0, RedTo <- {}, Entries <- 1, MaxVals <- 0
N == INSTANCE Nets WITH NetKinds <- {}, Sizes <- {}, Depths <- {}, Acts <- {}, Lattices <- {}, Taps <- {}, Spread <- 1, MaxX <- 1
mv == <<emb, reds, vals, phase, net, h, pc, inp>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1 /\ UNCHANGED mv
Init == emb = 0 /\ reds = 0 /\ vals = 0 /\ phase = 0 /\ net = 0 /\ h = 0 /\ pc = 0 /\ inp = 0 /\ l = 1 /\ bad = <<>>
Vector(v, o) == CloseSeq(o, TLCEval(E!Features(e.emb, e.reds, v)), E!Tol(e.emb, e.reds, v))
Embedded == /\ e.ev = "Embed"
            /\ Note(<< <<"features-are-the-documented-functions", Len(e.outs) = Len(e.vals) /\ \A i \in DOMAIN e.vals : Vector(e.vals[i], e.outs[i])>>,
                       <<"one-vector-per-scalar", e.outshape = e.bshape \o <<Len(E!Features(e.emb, e.reds, 0))>>>>,
                       <<"stated-number-of-features", e.count = Len(E!Features(e.emb, e.reds, 0))>> >>)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Terms == Len(e.x[1]) * Len(e.x[1][1]) * E!FeatureCount(e.parts)
Featured == /\ e.ev = "Feat"
            /\ Note(<< <<"features-depend-on-their-site-alone", \A b \in DOMAIN e.x : \A s \in DOMAIN e.x[b] :
                            CloseSeq(e.feats[b][s], Flat(E!SiteFeatures(e.parts, e.x[b][s])), 4)>>,
                       <<"divergence-is-the-derivative-of-the-features", Len(e.divs) = Len(e.x) /\ \A b \in DOMAIN e.x :
                            Close(e.divs[b], E!Divergence(e.parts, e.w, e.mask, e.x[b]), 16 + (40 * Terms))>>,
                       <<"stated-number-of-channels", e.count = Len(e.x[1][1]) * E!FeatureCount(e.parts)>>,
                       <<"features-have-the-stated-shape", e.outshape = e.want /\ e.divshape = <<Len(e.x)>>>> >>)
Ran == /\ e.ev = "Net"
       /\ Note(<< <<"network-computes-its-layers", Len(e.ys) = Len(e.xs) /\ \A b \in DOMAIN e.xs :
                       IF e.train THEN e.ys[b] \in N!Dropped(e.net, 1, e.xs[b]) ELSE e.ys[b] = N!Forward(e.net, 1, e.xs[b])>>,
                  <<"network-output-has-the-stated-shape", e.outshape = e.want>> >>)
Sized == e.ev = "Shape" /\ Note(<< <<"network-output-has-the-stated-shape", e.outshape = e.want>>, <<"outputs-are-finite", AllFin(e.ys)>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED <<mv, bad>>
Next == (l <= Len(Trace) /\ (Embedded \/ Featured \/ Ran \/ Sized \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<mv, l, bad>>
=============================================================================
