----------------------------- MODULE DiagTrace ------------------------------
(* Follows a history of samples through Diag and judges what the library
   reports about it; judges recorded moving averages window by window.       *)
EXTENDS TraceLib
VARIABLES smp, pn, qn, last, win, xs, sum, outs, l, bad
D == INSTANCE Diag WITH Ms <- {}, Ks <- {}, Logs <- {}, Norms <- {}, Vals <- {}, Wins <- {}, MaxN <- 0, MaxX <- 0
rest == <<last, win, xs, sum, outs>>
mv == <<smp, pn, qn, last, win, xs, sum, outs>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == smp = <<>> /\ pn = 0 /\ qn = 0 /\ last = "new" /\ win = 1 /\ xs = <<>> /\ sum = 0 /\ outs = <<>> /\ l = 1 /\ bad = <<>>
Op == /\ e.ev = "Op" /\ Note(<<>>) /\ UNCHANGED rest
      /\ CASE e.o = "new" -> smp' = <<>> /\ pn' = 0 /\ qn' = 0
           [] e.o = "draw" -> smp' = Append(smp, [m |-> e.m, k |-> e.k, t |-> e.t, s |-> e.s]) /\ UNCHANGED <<pn, qn>>
           [] e.o = "norm" -> (IF e.w = "p" THEN pn' = e.c /\ qn' = qn ELSE qn' = e.c /\ pn' = pn) /\ smp' = smp
           [] e.o = "swap" -> smp' = D!Swap(e.i, e.j) /\ UNCHANGED <<pn, qn>>
           [] e.o = "twice" -> smp' = smp \o smp /\ UNCHANGED <<pn, qn>>
(* a/b <= 1 in units of 2^-bits, rounded down *)
RECURSIVE Frac(_, _, _)
Frac(a, b, bits) == IF bits = 0 THEN (IF a >= b THEN 1 ELSE 0)
                    ELSE LET r == IF a >= b THEN a - b ELSE a IN (IF a >= b THEN D!Pw2(bits) ELSE 0) + Frac(2 * r, b, bits - 1)
Ess == Frac(D!EssNum(smp), D!EssDen(smp), 20)
Read == /\ e.ev = "Read" /\ UNCHANGED mv
        /\ Note(<< <<"effective-sample-size-is-its-definition", e.ess = <<>> \/ ~D!Live(smp) \/ \A i \in DOMAIN e.ess : Close(e.ess[i], TLCEval(Ess), e.tol)>>,
                   <<"effective-sample-size-is-bounded", e.ess = <<>> \/ ~D!Live(smp) \/ \A i \in DOMAIN e.ess : e.ess[i] <= Unit + e.tol /\ e.ess[i] + e.tol >= Unit \div (Len(smp) * e.rep)>>,
                   <<"divergence-is-the-mean-log-ratio", \A i \in DOMAIN e.dkl : Close(e.dkl[i], 64 * D!DklN(smp, pn, qn), 16)>>,
                   <<"diagnostics-are-scalars", e.shapes = <<<<>>, <<>>>>>> >>)
(* averages: y in units of 2^-10 over windows of the recorded stretch x *)
Win(w, i) == SubSeq(e.x, i, (i + w) - 1)
Right(s, y) == IF \E i \in DOMAIN s : s[i] = NaN THEN y = NaN
               ELSE IF \E i \in DOMAIN s : s[i] = Inf THEN y = Inf
               ELSE IsFin(y) /\ Abs((y * Len(s)) - (1024 * SumSeq(s))) <= (1 + e.tol) * Len(s)
Want == IF e.total < e.w THEN 1 ELSE (e.total - e.w) + 1
Avg == /\ e.ev = "Avg" /\ UNCHANGED mv
       /\ Note(<< <<"average-over-each-window", IF e.total < e.w THEN Len(e.y) = 1 /\ Right(e.x, e.y[1])
                        ELSE Len(e.y) = (Len(e.x) - e.w) + 1 /\ \A i \in DOMAIN e.y : Right(Win(e.w, i), e.y[i])>>,
                  <<"one-average-per-window", e.len = Want>> >>)
Err == e.ev = "Error" /\ UNCHANGED mv /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ UNCHANGED <<mv, bad>>
Next == (l <= Len(Trace) /\ (Op \/ Read \/ Avg \/ Err)) \/ Done
Spec == Init /\ [][Next]_<<mv, l, bad>>
=============================================================================
