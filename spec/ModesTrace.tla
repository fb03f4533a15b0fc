----------------------------- MODULE ModesTrace -----------------------------
(* Judges recorded Fourier metadata, conversions, momentum grids and spectral
   scalings.  "Meta" starts an episode: its lattice and its own choice of
   independent modes, which must be a valid one.                             *)
EXTENDS TraceLib
VARIABLES n, layout, word, l, bad, kept, spec, field
M == INSTANCE Modes WITH Shapes0 <- {}, MaxLen <- 1000
e == Trace[l]
vs == <<n, layout, word, l, bad, kept, spec, field>>
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == n = <<1>> /\ layout = "none" /\ word = <<>> /\ l = 1 /\ bad = <<>> /\ kept = <<0>> /\ spec = <<>> /\ field = <<>>
KeepAll == UNCHANGED <<n, layout, word, kept, spec, field>>
RC(k) == M!Coord(M!Half(n'), k)
KSet(ks) == {RC(ks[i]) : i \in DOMAIN ks}
Ascending(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]

U16 == 65536
Meta == /\ e.ev = "Meta" /\ n' = e.n /\ kept' = e.kept /\ layout' = "none" /\ word' = <<>> /\ spec' = <<>> /\ field' = <<>>
                    /\ LET K == KSet(e.kept) IN Note(<<
              <<"one-mode-of-each-conjugate-pair", M!Chosen(e.n, K) /\ Ascending(e.kept)>>,
              <<"imaginary-parts-of-complex-modes-only", KSet(e.imag) = M!Imag(e.n, K) /\ Len(e.imag) = Cardinality(M!Imag(e.n, K))>>,
              <<"degrees-of-freedom-add-up", Len(e.kept) + Len(e.imag) = ProdSeq(e.n)>>,
              <<"dependent-modes-are-conjugates",
                  /\ {e.copyto[i] : i \in DOMAIN e.copyto} = M!Red(e.n) \ K
                  /\ Len(e.copyto) = Cardinality(M!Red(e.n) \ K) /\ Len(e.copyfrom) = Len(e.copyto)
                  /\ \A i \in DOMAIN e.copyto : e.copyfrom[i] = M!Neg(e.n, e.copyto[i]) /\ e.copyfrom[i] \in K>>,
              <<"have-imag-lists-kept-modes", [i \in 1..Len(e.kept) |-> IF e.kept[i] \in Range(e.imag) THEN 1 ELSE 0] = e.haveimag>>,
              <<"unique-momenta", /\ Len(e.ksred) = Len(e.kept) /\ Len(e.unfold) = Len(e.kept)
                                  /\ \A i \in DOMAIN e.ksred : e.ksred[e.uidc[e.unfold[i] + 1] + 1] = e.ksred[i]
                                  /\ \A i, j \in DOMAIN e.uidc : i # j => e.ksred[e.uidc[i] + 1] # e.ksred[e.uidc[j] + 1]>> >>)

(* content of each representation, one list per copy (batch and channel) *)
ReIm(t) == <<t[1], t[2]>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Pos(k) == CHOOSE i \in DOMAIN kept : kept[i] = k
ImOf == SelectSeq(kept, LAMBDA k : ~M!Real0(n, M!Coord(M!Half(n), k)))
Content(rep, c) ==
   IF rep = "rfft" THEN Flat([i \in DOMAIN spec[c] |-> ReIm(spec[c][i])])
   ELSE IF rep = "comp_complex" THEN Flat([i \in DOMAIN kept |-> ReIm(spec[c][kept[i] + 1])])
   ELSE [i \in DOMAIN kept |-> spec[c][kept[i] + 1][1]] \o [i \in DOMAIN ImOf |-> spec[c][ImOf[i] + 1][2]]
Space(rep) == IF rep = "real_space" THEN n ELSE IF rep = "rfft" THEN M!Half(n)
              ELSE IF rep = "comp_complex" THEN <<Len(kept)>> ELSE <<ProdSeq(n)>>

Field == /\ e.ev = "Field" /\ UNCHANGED <<n, kept, layout>> /\ word' = <<>>
         /\ field' = e.f /\ spec' = [c \in DOMAIN e.f |-> M!Spectrum(n, e.f[c])] /\ Note(<< >>)
Conv == /\ e.ev = "Conv" /\ UNCHANGED <<n, kept, layout, field, spec>> /\ word' = Append(word, e.rep)
        /\ Note(<< <<"representation-tag", e.tag = e.rep>>,
                   <<"representation-shape", e.shape = e.b \o Space(e.rep) \o e.c>>,
                   <<"representation-content",
                      /\ Len(e.data) = Len(field)
                      /\ \A c \in DOMAIN field :
                           IF e.rep = "real_space" THEN CloseSeq(e.data[c], [i \in DOMAIN field[c] |-> field[c][i] * U16], 700)
                           ELSE CloseSeq(e.data[c], Content(e.rep, c), 700)>>,
                   <<"log-density-unchanged", e.ld>> >>)
(* momentum grids: a row per mode *)
Cube(e0) == IF e0.reduced THEN M!Half(e0.n) ELSE e0.n
Grid == /\ e.ev = "Grid" /\ KeepAll
        /\ LET mode(i) == M!Coord(Cube(e), i - 1) IN
           Note(<< <<"grid-shape", e.shape = Cube(e) \o <<Len(e.n)>> /\ Len(e.k) = ProdSeq(Cube(e))>>,
                   <<"momentum-of-its-mode", \A i \in DOMAIN e.k : \A a \in DOMAIN e.n :
                       LET v == e.k[i][a] w == mode(i)[a] * (120 \div e.n[a]) IN
                       IF e.kind = "unit" THEN v = mode(i)[a]
                       ELSE IF e.kind = "continuum" THEN (v - w) % 120 = 0 /\ v >= 0 - 60 /\ v <= 60
                       ELSE Close((v * v) \div 65536, 2 * 4096 - (M!Cos120(w) \div 8), 24)>> >>)
Scale == /\ e.ev = "Scale" /\ KeepAll
   /\ LET F(c) == M!Spectrum(e.n, e.x[c]) K == M!First(e.n)
          H == M!Half(e.n)
          RECURSIVE Lg(_)
          Lg(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN
                   e.lg[M!Lin(H, k) + 1] * (IF M!Real0(e.n, k) THEN 1 ELSE 2) + Lg(S \ {k}) IN
  Note(<< <<"each-mode-times-its-own-factor", Len(e.y) = Len(e.x) /\ \A c \in DOMAIN e.x :
             LET S == F(c) IN \A i \in DOMAIN S :
               IF e.fwd THEN /\ Close(2 * e.y[c][2 * i - 1], e.s2[i] * S[i][1], 3000)
                             /\ Close(2 * e.y[c][2 * i], e.s2[i] * S[i][2], 3000)
               ELSE /\ Close(e.s2[i] * e.y[c][2 * i - 1], 2 * S[i][1], 3000)
                    /\ Close(e.s2[i] * e.y[c][2 * i], 2 * S[i][2], 3000)>>,
          <<"log-density-counts-each-degree-of-freedom",
             LET d == Lg(K) * e.chan IN \A i \in DOMAIN e.dld : e.dld[i] = IF e.fwd THEN 0 - d ELSE d>>,
          <<"shape", e.yshape = e.xshape>> >>)
(* free theory spectrum: s^2 (m^2 + k^2) = 1 or 1/2 *)
K2(k) == IF e.finite THEN M!Laplace(e.n, k) \div 16
         ELSE LET RECURSIVE Go(_)
                  Go(a) == IF a > Len(e.n) THEN 0
                           ELSE LET w == IF 2 * k[a] > e.n[a] THEN k[a] - e.n[a] ELSE k[a]
                                    v == (411775 * w) \div (16 * e.n[a]) IN ((v * v) \div 4096) + Go(a + 1)
              IN Go(1)
Free == /\ e.ev = "Free" /\ KeepAll
   /\ LET H == M!Half(e.n) goal == IF e.half THEN 67108864 ELSE 33554432 IN
  Note(<< <<"free-spectrum", Len(e.s) = ProdSeq(H) /\ \A i \in DOMAIN e.s :
              Close(((e.s[i] * e.s[i]) \div 16384) * (e.m2 + K2(M!Coord(H, i - 1))), goal, 700000) /\ e.s[i] > 0>>,
          <<"applied-to-each-mode", \A c \in DOMAIN e.x : LET S == M!Spectrum(e.n, e.x[c]) IN \A i \in DOMAIN S :
               \A j \in {1, 2} : Close(e.y[c][2 * i - 2 + j], ((S[i][j] \div 256) * e.s[i]) \div 16384, 8)>> >>)
Err == e.ev = "Error" /\ KeepAll /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ KeepAll /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Meta \/ Field \/ Conv \/ Grid \/ Scale \/ Free \/ Err)) \/ Done
Spec == Init /\ [][Next]_vs
=============================================================================
