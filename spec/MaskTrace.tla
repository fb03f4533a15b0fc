------------------------------ MODULE MaskTrace ------------------------------
(* Judges recorded masks and coupling layers.  "Mask" starts a mask (ep) as it
   was built and flipped; the other lines of the episode refer to it.        *)
EXTENDS TraceLib
VARIABLES shape, prim, sec, flips, how, l, bad
M == INSTANCE Mask WITH Shapes0 <- {}, MaxFlips <- 10
e == Trace[l]
vs == <<shape, prim, sec, flips, how, l, bad>>
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Keep == UNCHANGED <<shape, prim, sec, flips, how>>
Init == shape = <<>> /\ prim = <<>> /\ sec = <<>> /\ flips = 0 /\ how = "bool" /\ l = 1 /\ bad = <<>>

BitsOf(p, n) == [k \in 1..n |-> IF k - 1 \in Range(p) THEN 1 ELSE 0]
LinOf(sh, c) == LET RECURSIVE Go(_, _)
                    Go(i, acc) == IF i > Len(sh) THEN acc ELSE Go(i + 1, acc * sh[i] + c[i])
                IN Go(1, 0)
LinAll(sh, cs) == [i \in 1..Len(cs) |-> LinOf(sh, cs[i])]
(* what the object reports about itself *)
Describes == << <<"boolean-mask-is-the-index-set", e.bits = BitsOf(prim', ProdSeq(shape')) /\ e.nbits = BitsOf(sec', ProdSeq(shape'))>>,
                <<"index-lists", LinAll(shape', e.pidx) = prim' /\ LinAll(shape', e.sidx) = sec'>>,
                <<"counts", e.counts = <<Len(prim'), Len(sec')>> /\ e.size = ProdSeq(shape') /\ e.eshape = shape'>> >>
New == /\ e.ev = "Mask" /\ shape' = e.shape /\ how' = e.how /\ flips' = 0
       /\ prim' = e.built /\ sec' = M!Others(e.shape, e.built)
       /\ Note(Describes)
Flip == e.ev = "Flip" /\ M!Flip /\ Note(Describes)
(* arrays numbered 1.. with batch b and channel shape c around the event *)
Part(p) == LET cs == ProdSeq(e.c) n == ProdSeq(shape)
               tot == ProdSeq(e.b) * Len(p) * cs IN
           [i \in 1..tot |-> LET bi == (i - 1) \div (Len(p) * cs)
                                 k  == ((i - 1) \div cs) % Len(p)
                                 ci == (i - 1) % cs
                             IN 1 + (bi * n + p[k + 1]) * cs + ci]
Masked(p) == LET cs == ProdSeq(e.c) n == ProdSeq(shape) IN
             [i \in 1..(ProdSeq(e.b) * n * cs) |-> IF ((i - 1) \div cs) % n \in Range(p) THEN i ELSE 0]
Split == e.ev = "Split" /\ Keep /\
  Note(<< <<"first-part", e.p = Part(prim) /\ e.pshape = e.b \o <<Len(prim)>> \o e.c>>,
          <<"second-part", e.s = Part(sec) /\ e.sshape = e.b \o <<Len(sec)>> \o e.c>>,
          <<"merge-undoes-split", e.m = [i \in 1..ProdSeq(e.b \o shape \o e.c) |-> i] /\ e.mshape = e.b \o shape \o e.c>>,
          <<"index-tuples-select-the-same-parts", e.ip = Part(prim) /\ e.js = Part(sec) /\ (e.b = <<>> => e.ip0 = Part(prim))>>,
          <<"merge-undoes-split-in-every-dtype", \A t \in Range(e.typed) : t.same /\ Len(t.re) = Len(e.m) /\
             \A i \in 1..Len(e.m) : t.re[i] = i /\ t.im[i] = IF t.cplx THEN -i ELSE 0>>,
          <<"multiplication-keeps-the-first-part", e.c = <<>> => e.mul = Masked(prim) /\ e.rmul = Masked(prim) /\ e.nmul = Masked(sec)>>,
          <<"bijection-splits-and-merges", e.c = <<>> => e.bij>> >>)
Couple == e.ev = "Couple" /\ Keep /\
  LET want(i) == M!Couple(e.x[i], prim, sec, e.sc, e.w, e.fwd)
      lg == M!LgSum(prim, e.sc) IN
  Note(<< <<"conditioning-entries-unchanged", \A i \in DOMAIN e.x : \A k \in Range(sec) : e.y[i][k + 1] = e.x[i][k + 1]>>,
          <<"transformed-entries", Len(e.y) = Len(e.x) /\ \A i \in DOMAIN e.x : EqSeq(e.y[i], want(i))>>,
          <<"log-density-of-transformed-entries", e.ldo = [i \in DOMAIN e.ldi |-> IF e.fwd THEN e.ldi[i] - lg ELSE e.ldi[i] + lg]>>,
          <<"shapes", e.yshape = e.xshape /\ e.ldshape = e.b>> >>)
Checker == e.ev = "Checker" /\ Keep /\
  Note(<< <<"checkerboard", e.bits = [k \in 1..ProdSeq(e.shape) |-> IF k - 1 \in M!Checker(e.shape, e.parity) THEN 1 ELSE 0] >> >>)
Err == e.ev = "Error" /\ Keep /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ Keep /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (New \/ Flip \/ Split \/ Couple \/ Checker \/ Err)) \/ Done
Spec == Init /\ [][Next]_vs
=============================================================================
