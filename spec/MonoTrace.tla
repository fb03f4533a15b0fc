------------------------------ MODULE MonoTrace -----------------------------
(* Judges recorded values of real elementwise maps and splines: exactly where
   Mono knows the value, and by order and range everywhere else.             *)
EXTENDS TraceLib
VARIABLES l, bad
M == INSTANCE Mono WITH T <- 64
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == l = 1 /\ bad = <<>>
Chained == /\ e.ev = "Chain"
   /\ LET c == M!Chain(e.fam)
          want == [i \in 1..Len(c) |-> LET r == M!Val(e.fam, e.par, c[i][1], c[i][2]) IN M!FixDiv(r[1], r[2], e.bits)] IN
      Note(<< <<"exact-values", CloseSeq(e.out, want, e.tol)>>, <<"arguments-returned-by-the-inverse", CloseSeq(e.back, e.args, e.tol)>> >>)
Splined == /\ e.ev = "Spline"
   /\ LET n == Len(e.s.xs) IN
      Note(<< <<"exact-values", CloseSeq(e.y, [i \in DOMAIN e.X |-> M!At(e.s, e.X[i])], 4)>>,
              <<"inverse-values", CloseSeq(e.x, [i \in DOMAIN e.X |-> e.X[i] * (M!Full \div 512)], 64)>>,
              <<"slopes-at-knots", CloseSeq(e.ks, [i \in 1..n |-> e.s.ds[i] * (Unit \div 16)], 16)>>,
              <<"slopes-between-knots", CloseSeq(e.ms, [i \in 1..n - 1 |-> M!MidSlope(e.s, i)], e.mtol)>>,
              <<"end-points-kept", e.ends = <<0, M!Full>> >>,
              <<"slope-one-outside", \A i \in DOMAIN e.outside : e.outside[i] = Unit>> >>)
(* ranks of the outputs for rising inputs; a drop counts units of rounding  *)
Ordered == /\ e.ev = "Order"
   /\ LET n == Len(e.r) IN
      Note(<< <<"no-nan", ~e.nan>>,
              <<"strictly-monotone", \A i \in 1..n - 1 : e.strict[i] => (IF e.up THEN e.r[i] < e.r[i + 1] ELSE e.r[i] > e.r[i + 1])>>,
              <<"monotone", \A i \in 1..n - 1 : e.drop[i] <= 8>>,
              <<"within-range", \A i \in 1..n : e.lo <= e.r[i] /\ e.r[i] <= e.hi>> >>)
Rooted == /\ e.ev = "Root" /\ Note(<< <<"root-of-the-polynomial", CloseSeq(e.x, [i \in DOMAIN e.r |-> e.r[i] * Unit], e.tol)>> >>)
Within == /\ e.ev = "Within" /\ Note(<< <<"parameter-within-bounds", \A i \in DOMAIN e.v : e.lo <= e.v[i] /\ e.v[i] <= e.hi>>,
                                       <<"default-parameter", CloseSeq(e.d, e.want, 8)>> >>)
(* odd maps, and maps of the unit interval symmetric about its middle        *)
Mirrored == /\ e.ev = "Mirror" /\ Note(<< <<"symmetric", \A i \in DOMAIN e.a : Close(e.a[i] + e.b[i], e.sum, 8)>> >>)
Err == e.ev = "Error" /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Chained \/ Splined \/ Ordered \/ Rooted \/ Within \/ Mirrored \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
