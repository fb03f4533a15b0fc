----------------------------- MODULE ReconTrace -----------------------------
(* Validates recorded reconstructions.  "Tree" introduces a template with its
   leaves in path order; "Via" one trip through a representation; "Batch" a
   batched representation; "Auto" a vectorised call of an affine template.   *)
EXTENDS TraceLib
VARIABLES tree, content, word, hdr, l, bad
M == INSTANCE Recon WITH MaxLen <- 1000, Trees <- {}
e == Trace[l]
vs == <<tree, content, word, hdr, l, bad>>
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Keep == UNCHANGED <<tree, content, word, hdr>>
Init == tree = <<>> /\ content = <<>> /\ word = <<>> /\ hdr = <<>> /\ l = 1 /\ bad = <<>>
Ps == M!ParamIdx(tree')
Cum(s) == [j \in 1..(IF Len(s) = 0 THEN 0 ELSE Len(s) - 1) |-> SumSeq(SubSeq(s, 1, j))]
Tree == /\ e.ev = "Tree" /\ tree' = e.tree /\ content' = e.vals /\ word' = <<>> /\ hdr' = e
        /\ LET sizes == [j \in 1..Len(Ps) |-> ProdSeq(tree'[Ps[j]].shape)] IN
           Note(<< <<"documented-shapes", e.shapes = [j \in 1..Len(Ps) |-> tree'[Ps[j]].shape]>>,
                   <<"documented-dtypes", e.dtypes = [j \in 1..Len(Ps) |-> tree'[Ps[j]].dtype]>>,
                   <<"documented-dictionary", e.paths = [j \in 1..Len(Ps) |-> tree'[Ps[j]].path]>>,
                   <<"dictionary-of-shapes", \A d \in {e.dshapes, e.sshapes} :
                      d = [j \in 1..Len(Ps) |-> [path |-> tree'[Ps[j]].path, shape |-> tree'[Ps[j]].shape]]>>,
                   <<"documented-sizes", e.complex \/ (e.sizes = sizes /\ e.total = SumSeq(sizes) /\ e.splits = Cum(sizes))>>,
                   <<"complex-parameters-noticed", e.complex = (\E j \in DOMAIN Ps : tree'[Ps[j]].cplx)>> >>)
(* rep: the (bumped) representation handed in; got: leaves of the module built *)
Via == /\ e.ev = "Via" /\ M!Via(e.rep) /\ UNCHANGED hdr
       /\ Note(<< <<"representation-lists-leaves-in-order", e.lay = M!Layout(e.rep, tree, content')>>,
                  <<"same-parameters-leaf-for-leaf", e.got = content'>>,
                  <<"same-structure", e.gtree = tree>>,
                  <<"template-not-modified", e.kept = hdr.vals /\ e.again>> >>)
(* batched: slice b of every leaf is the content bumped b times *)
RECURSIVE Times(_, _)
Times(c, n) == IF n = 0 THEN c ELSE Times(M!Bump(tree, c), n - 1)
Batch == /\ e.ev = "Batch" /\ Keep
         /\ Note(<< <<"batched-shapes", \A i \in DOMAIN tree : e.gshapes[i] = IF tree[i].par THEN e.b \o tree[i].shape ELSE tree[i].shape>>,
                    <<"each-slice-is-its-own-module", \A s \in DOMAIN e.slices : e.slices[s] = Times(content, s - 1)>> >>)
(* numpy broadcasting of batch shapes *)
BShape(s, t) == LET n == Max2(Len(s), Len(t))
                    G(u, i) == IF i > n - Len(u) THEN u[i - (n - Len(u))] ELSE 1
                IN [i \in 1..n |-> Max2(G(s, i), G(t, i))]
RECURSIVE Unr(_, _)
Unr(sh, k) == IF sh = <<>> THEN <<>> ELSE LET r == ProdSeq(Tail(sh)) IN <<k \div r>> \o Unr(Tail(sh), k % r)
LinB(sh, idx) == LET d == Len(idx) - Len(sh)
                     RECURSIVE Go(_, _)
                     Go(i, acc) == IF i > Len(sh) THEN acc ELSE Go(i + 1, acc * sh[i] + (IF sh[i] = 1 THEN 0 ELSE idx[d + i]))
                 IN Go(1, 0)
(* template x -> s * x + t per entry, powers of two scales; ev: event size *)
Auto == /\ e.ev = "Auto" /\ Keep
        /\ LET bs == BShape(e.pb, e.xb)
               nb == ProdSeq(bs)
               P(k) == LinB(e.pb, Unr(bs, k - 1)) + 1
               X(k) == LinB(e.xb, Unr(bs, k - 1)) + 1
               want == [k \in 1..nb |-> [j \in 1..e.n |-> e.s[P(k)][j] * e.x[X(k)][j] + e.t[P(k)][j]]]
               lg(k) == SumSeq([j \in 1..e.n |-> IF Abs(e.s[P(k)][j]) = 2 THEN 1 ELSE 0])
           IN Note(<< <<"vectorised-call-uses-each-slice", e.y = want>>,
                      <<"vectorised-log-density", e.ldo = [k \in 1..nb |-> e.ld[X(k)] - lg(k)]>>,
                      <<"vectorised-shapes", e.yshape = bs \o e.ev0 /\ e.ldshape = bs>>,
                      <<"vectorised-inverse", e.back = [k \in 1..nb |-> e.x[X(k)]] /\ e.ldback = [k \in 1..nb |-> e.ld[X(k)]]>> >>)
Same == e.ev = "Same" /\ Keep /\ Note(<< <<"slices-behave-as-their-own-modules", CloseSeq(e.a, e.b, e.tol) /\ e.ashape = e.bshape>> >>)
(* a spline with k knots has k widths, k heights and k-1 inner slopes per entry *)
Counts == e.ev = "Counts" /\ Keep /\
  Note(<< <<"spline-parameter-count", e.count = 3 * e.knots - 1 /\ e.splits = <<e.knots, e.knots, e.knots - 1>> /\ e.total = e.n * e.count>>,
          <<"attributes-through-a-vectorised-handle", e.seen = <<e.knots, e.count>> >> >>)
Err == e.ev = "Error" /\ Keep /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ Keep /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Tree \/ Via \/ Batch \/ Auto \/ Same \/ Counts \/ Err)) \/ Done
Spec == Init /\ [][Next]_vs
=============================================================================
