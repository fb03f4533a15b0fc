------------------------------ MODULE IMHTrace ------------------------------
(* Validates recorded chains of bijx.IMH against IMH, and the decisions of
   single steps as a function of the ratio ("Ladder" lines).

   The uniform draw hidden in a key is measured by a ladder: the same key with
   states whose ratio to the proposal is 2^k, k = Lo..Hi.  Whatever the draw,
   decisions must be monotone in k, must not depend on how the ratio comes
   about, and must accept from k = 0 on; "Count" lines bound the frequencies
   over independent keys, also given the proposal.  The level measured this
   way then determines every decision of a chain run with that key.         *)
EXTENDS TraceLib
VARIABLES T, Q, cur, st, tt, qq, word, l, bad
M == INSTANCE IMH WITH Tabs <- {}, MinLev <- 20, MaxSteps <- 1000000
vs == <<T, Q, cur, st, tt, qq, word, l, bad>>
e == Trace[l]
Note(cl) == bad' = bad \o FailedAt(l, cl) /\ l' = l + 1
Init == T = <<>> /\ Q = <<>> /\ cur = 0 /\ st = "new" /\ tt = 0 /\ qq = 0 /\ word = <<>> /\ l = 1 /\ bad = <<>>
Keep == UNCHANGED <<T, Q, cur, st, tt, qq, word>>

Chain == /\ e.ev = "Chain" /\ T' = e.T /\ Q' = e.Q /\ cur' = 0 /\ st' = "new" /\ tt' = 0 /\ qq' = 0 /\ word' = <<>> /\ Note(<<>>)
(* a logged state: index, whole position, densities in log 2 *)
StateOk(s) == /\ s.i \in DOMAIN T /\ s.pos = <<s.i, 10 * s.i, 0 - s.i>> /\ s.t = T[s.i] /\ s.q = Q[s.i]
Begin == /\ e.ev = "Begin"
         /\ M!Begin(e.s.i)
         /\ Note(<< <<"initial-state-is-a-proposal-with-its-densities", StateOk(e.s)>> >>)
RECURSIVE Half(_, _)
Half(v, k) == IF k = 0 THEN v ELSE Half(v \div 2, k - 1)
Prob(k) == IF k >= 0 THEN Unit ELSE IF k < (0 - 20) THEN 0 ELSE Half(Unit, 0 - k)
Step == /\ e.ev = "Step"
        /\ LET j == e.prop.i
               k == M!Alpha(T[j], Q[j], tt, qq)
               def == M!Defined(T[j], tt)
               cl0 == << <<"proposal-with-its-densities", StateOk(e.prop)>>,
                         <<"new-state-keeps-position-and-densities-together", StateOk(e.s)>> >>
           IN IF def
              THEN /\ M!Step(j, IF e.lev = 99 THEN (IF e.acc THEN k ELSE k + 1) ELSE e.lev)
                   /\ Note(cl0 \o << <<"accepts-exactly-when-draw-below-ratio", e.acc = (cur' = j /\ M!Accepts(j, IF e.lev = 99 THEN (IF e.acc THEN k ELSE k + 1) ELSE e.lev))>>,
                                     <<"ratio-at-least-one-is-accepted", k >= 0 => e.acc>>,
                                     <<"zero-density-is-rejected", k = M!NI => ~e.acc>>,
                                     <<"state-follows-decision", e.s.i = cur' /\ (~e.acc => e.s = e.old) /\ (e.acc => e.s = e.prop)>>,
                                     <<"reported-probability", Close(e.ap, Prob(k), 2)>> >>)
              ELSE /\ Keep /\ Note(cl0 \o << <<"state-follows-decision", e.s = IF e.acc THEN e.prop ELSE e.old>> >>)
Ladder == /\ e.ev = "Ladder" /\ Keep
          /\ Note(<< <<"monotone-in-the-ratio", \A i, j \in DOMAIN e.acc : i <= j /\ e.acc[i] => e.acc[j]>>,
                     <<"depends-on-the-ratio-only", e.acc2 = e.acc /\ e.acc3 = e.acc>>,
                     <<"ratio-at-least-one-is-accepted", \A i \in DOMAIN e.acc : e.lo + i - 1 >= 0 => e.acc[i]>>,
                     <<"reported-probability", \A i \in DOMAIN e.ap : Close(e.ap[i], Prob(e.lo + i - 1), 2)>> >>)
(* n trials, expected n * 2^-k, allowed deviation dev (6 sigma) *)
Count == e.ev = "Count" /\ Keep /\
         Note(<< <<"acceptance-frequency", Abs(e.hits - Half(e.n, e.k)) <= e.dev>> >>)
(* draws of known level against one ratio *)
Script == e.ev = "Script" /\ Keep /\
          Note(<< <<"accepts-exactly-when-draw-below-ratio", \A i \in DOMAIN e.levs : e.acc[i] = (e.k >= e.levs[i])>> >>)
Err == e.ev = "Error" /\ Keep /\ Note(<< <<"no-exception", FALSE>> >>)
Done == l = Len(Trace) + 1 /\ Report(bad) /\ l' = l + 1 /\ Keep /\ UNCHANGED bad
Next == (l <= Len(Trace) /\ (Chain \/ Begin \/ Step \/ Ladder \/ Count \/ Script \/ Err)) \/ Done
Spec == Init /\ [][Next]_vs
=============================================================================
