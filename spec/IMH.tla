-------------------------------- MODULE IMH --------------------------------
(* Independence Metropolis-Hastings on finitely many points with target and
   proposal weights that are powers of two (T, Q hold base-2 logarithms, or NI
   for weight zero), so that every acceptance ratio is 2^k.  A uniform draw is
   represented by its level: u in [2^(lev-1), 2^lev); the move is accepted
   exactly when 2^k > u, that is when k >= lev.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tabs, MinLev, MaxSteps
VARIABLES T, Q, cur, st, tt, qq, word
vars == <<T, Q, cur, st, tt, qq, word>>
NI == 0 - 1000000
PI == 1000000
Alpha(t1, q1, t0, q0) ==          \* log2 of the ratio, clamped
  IF t1 = NI THEN (IF t0 = NI THEN 0 ELSE NI)
  ELSE IF t0 = NI THEN PI ELSE t1 - q1 - t0 + q0
Defined(t1, t0) == ~(t1 = NI /\ t0 = NI)
Accepts(j, lev) == Alpha(T[j], Q[j], tt, qq) >= lev

Begin(j) == st = "new" /\ st' = "run" /\ cur' = j /\ tt' = T[j] /\ qq' = Q[j]
            /\ word' = <<j>> /\ UNCHANGED <<T, Q>>
Step(j, lev) ==
  /\ st = "run" /\ Defined(T[j], tt)
  /\ IF Accepts(j, lev) THEN cur' = j /\ tt' = T[j] /\ qq' = Q[j]
     ELSE UNCHANGED <<cur, tt, qq>>
  /\ word' = Append(word, <<j, lev>>) /\ UNCHANGED <<T, Q, st>>

Init == \E tb \in Tabs : T = tb[1] /\ Q = tb[2] /\ cur = 0 /\ st = "new" /\ tt = 0 /\ qq = 0 /\ word = <<>>
Next == \/ \E j \in DOMAIN T : Begin(j)
        \/ Len(word) <= MaxSteps /\ \E j \in DOMAIN T : \E lev \in (0 - MinLev)..0 : Step(j, lev)
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
CacheBelongsToPosition == st = "run" => tt = T[cur] /\ qq = Q[cur]
StaysInSupport == [][st = "run" /\ tt # NI => tt' # NI]_vars
(* detailed balance: p_i q_j min(1, p_j q_i / (p_i q_j)) is symmetric *)
RECURSIVE P2(_)
P2(k) == IF k = NI THEN 0 ELSE IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Sh == 8                                  \* weights scaled to integers
Flow(i, j) == LET a == Alpha(T[j], Q[j], T[i], Q[i])
                  base == IF T[i] = NI THEN NI ELSE T[i] + Q[j] + 2 * Sh
              IN IF base = NI \/ a = NI THEN 0 ELSE IF a >= 0 THEN P2(base) ELSE P2(base + a)
DetailedBalance == \A i, j \in DOMAIN T : Flow(i, j) = Flow(j, i)
MovesOnlyToProposals == word # <<>> /\ st = "run" =>
   \/ cur = word[1] \/ \E i \in 2..Len(word) : word[i][1] = cur
=============================================================================
