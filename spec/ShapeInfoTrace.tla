--------------------------- MODULE ShapeInfoTrace ---------------------------
(* Judges recorded ShapeInfo objects.  Facts the object reports are <<>> (None)
   or <<value>>.  ev = <<space, channel>> is the event the descriptor came from. *)
EXTENDS TraceLib
CONSTANTS Entries, MaxRank, MaxGiven
VARIABLES space, chan, mask, l, bad
M == INSTANCE ShapeInfo
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == space = <<>> /\ chan = <<>> /\ mask = {} /\ l = 1 /\ bad = <<>>
Ev == <<e.s, e.c>>
D == M!Desc(Range(e.m), Ev)
Full == e.s \o e.c
Sound(g) == \A f \in M!Facts : g[f] # <<>> => g[f][1] = M!Fact(f, Ev)
Known(K, g) == \A f \in K : g[f] # <<>>
RankKnown == "ed" \in M!Closure(D)

Make == e.ev = "Make" /\
  Note(<< <<"reports-only-the-truth", Sound(e.got)>>,
          <<"reports-only-what-follows", \A f \in M!Facts \ M!Closure(D) : e.got[f] # <<>> => f \in M!Determined(D)>>,
          <<"reports-everything-the-facts-determine", Known(M!Closure(D), e.got)>>,
          <<"pytree-and-equality", e.same = TRUE /\ e.hash = TRUE /\ e.differs = TRUE>> >>)
(* an array of shape b \o space \o channel *)
Proc == e.ev = "Proc" /\
  Note(IF RankKnown
       THEN << <<"splits-batch-from-event", e.err = "" /\ e.batch = e.b /\ e.got["e"] = <<Full>> /\ e.got["ed"] = <<Len(Full)>> >>,
               <<"event-parts", e.err = "" => Sound(e.got) /\ Known(M!Close0(M!Closure(D) \cup {"e"}), e.got)>> >>
       ELSE << <<"unknown-rank-is-an-error", e.err = "RuntimeError">> >>)
(* event/space/channel axes of a full descriptor, as negative axis numbers *)
AxesOf(from, to) == [i \in 1..(to - from) |-> from + i - 1 - Len(Full)]
Axes == e.ev = "Axes" /\
  Note(<< <<"event-axes", e.event = AxesOf(0, Len(Full))>>,
          <<"space-axes", e.space = AxesOf(0, Len(e.s))>>,
          <<"channel-axes", e.chan = AxesOf(Len(e.s), Len(Full))>>,
          <<"sizes", e.sizes = <<ProdSeq(Full), ProdSeq(e.s), ProdSeq(e.c)>> >> >>)
(* flattening an array numbered 1..N keeps all entries in order *)
Ident(n) == [i \in 1..n |-> i]
Flat == e.ev = "Flat" /\
  Note(<< <<"flatten-keeps-batch", e.fshape = e.b \o <<ProdSeq(Full)>> /\ e.fbatch = e.b>>,
          <<"flatten-lossless", e.fdata = Ident(ProdSeq(e.b \o Full))>>,
          <<"flatten-info", Sound(e.fgot) /\ e.fgot["e"] = <<Full>> >> >>)
Canon == e.ev = "Canon" /\
  Note(<< <<"canonical-shape", e.cshape = <<ProdSeq(e.b)>> \o e.s \o <<ProdSeq(e.c)>> /\ e.cbatch = e.b>>,
          <<"canonical-lossless", e.cdata = Ident(ProdSeq(e.b \o Full))>>,
          <<"canonical-info", Sound(e.cgot) /\ e.cgot["s"] = <<e.s>> /\ e.cgot["c"] = <<e.c>> >> >>)
Contradicts(x) == Len(x) < Len(Full) \/ SubSeq(x, Len(x) - Len(Full) + 1, Len(x)) # Full
Reject == e.ev = "Reject" /\
  Note(<< <<"contradicting-array-is-an-error", Contradicts(e.x) => e.err = "AssertionError">>,
          <<"only-contradictions-are-errors", Contradicts(e.x)>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED bad
Next == ((l <= Len(Trace) /\ (Make \/ Proc \/ Axes \/ Flat \/ Canon \/ Reject \/ Err)) \/ Done) /\ UNCHANGED <<space, chan, mask>>
Spec == Init /\ [][Next]_<<space, chan, mask, l, bad>>
=============================================================================
