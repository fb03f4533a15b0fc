------------------------------ MODULE MCStepper -----------------------------
(* Explores the stepper stage by stage with a field that answers anything, and
   prints every schedule for replay into the integrators.                     *)
EXTENDS Stepper, TLC, Json
CONSTANTS TMax, HMax, Gens
VARIABLES nm, t0, t1, h, t, ks, v, same, nsteps
vars == <<nm, t0, t1, h, t, ks, v, same, nsteps>>
tab == Tabs[nm]
Init == /\ nm \in Names /\ t0 \in (N1(TMax))..TMax /\ t1 \in (N1(TMax))..TMax /\ h \in 1..HMax
        /\ t = t0 /\ ks = <<>> /\ v = 0 /\ same = 7 /\ nsteps = 0
Env == IF Gens THEN {1} ELSE IF Ab(t1 - t0) > 2 * h THEN {N1(1), 1} ELSE {N1(1), 0, 1}
Eval == /\ t # t1 /\ Len(ks) < Stages(tab)
        /\ \E k \in Env : ks' = Append(ks, k) /\ same' = IF same \in {7, k} THEN k ELSE 9
        /\ UNCHANGED <<nm, t0, t1, h, t, v, nsteps>>
Update == /\ t # t1 /\ Len(ks) = Stages(tab)
          /\ t' = NextT(t, t1, h) /\ v' = v + (t' - t) * SumN([j \in 1..Stages(tab) |-> tab.b[j] * ks[j]], Stages(tab))
          /\ ks' = <<>> /\ nsteps' = nsteps + 1 /\ UNCHANGED <<nm, t0, t1, h, same>>
Next == Eval \/ Update
Spec == Init /\ [][Next]_vars
Inside == IF t0 <= t1 THEN t0 <= t /\ t <= t1 ELSE t1 <= t /\ t <= t0
Covers == t = t1 => nsteps = (Ab(t1 - t0) + h - 1) \div h
ConstantFieldExact == (same \in {N1(1), 0, 1} /\ ks = <<>>) => v = (t - t0) * tab.D * same
EvalTimesInStep == (t # t1) => LET d == NextT(t, t1, h) - t IN \A i \in 1..Stages(tab) :
   (Node(tab, i) >= 0 /\ Node(tab, i) <= tab.D) => LET T == StageT(tab, t, d, i) IN
      IF d > 0 THEN 24 * t <= T /\ T <= 24 * (t + d) ELSE 24 * (t + d) <= T /\ T <= 24 * t
(* consistency and order of the named tableaus *)
Explicit == \A n \in Names : \A i \in 1..Stages(Tabs[n]), j \in 1..Stages(Tabs[n]) : j >= i => Tabs[n].a[i][j] = 0
Weights == \A n \in Names : Sum(Tabs[n].b) = Tabs[n].D
OnGrid == \A n \in Names : \A i \in 1..Stages(Tabs[n]) : (24 * Node(Tabs[n], i)) % Tabs[n].D = 0
Order2 == \A n \in {"CG2", "RK4", "Heun"} : LET T == Tabs[n] IN 2 * Sum([i \in 1..Stages(T) |-> T.b[i] * Node(T, i)]) = T.D * T.D
(* third order, including the Crouch-Grossmann condition, for CG3 with b/51, c/24, a/216 *)
B3 == <<13, N1(34), 72>>
C3 == <<0, 18, 17>>
A3 == <<<<0, 0, 0>>, <<162, 0, 0>>, <<119, 34, 0>>>>
Order3 == /\ \A i \in 1..3 : B3[i] * 72 = Tabs.CG3.b[i] /\ C3[i] * 153 = Node(Tabs.CG3, i) /\ \A j \in 1..3 : A3[i][j] * 17 = Tabs.CG3.a[i][j]
          /\ 2 * Sum([i \in 1..3 |-> B3[i] * C3[i]]) = 51 * 24
          /\ 3 * Sum([i \in 1..3 |-> B3[i] * C3[i] * C3[i]]) = 51 * 24 * 24
          /\ 6 * Sum([i \in 1..3 |-> B3[i] * Sum([j \in 1..3 |-> A3[i][j] * C3[j]])]) = 51 * 216 * 24
          /\ 3 * (Sum([i \in 1..3 |-> B3[i] * B3[i] * C3[i]]) + 2 * Sum([i \in 1..3 |-> Sum([j \in 1..3 |-> IF i < j THEN B3[i] * C3[i] * B3[j] ELSE 0])])) = 51 * 51 * 24
ASSUME Explicit /\ Weights /\ OnGrid /\ Order2 /\ Order3
(* the linear field is integrated exactly, so the retraced path is the path *)
Exact == (t = t0 /\ nm = "RK4") => \A P \in {<<12, 24, 12>>, <<N1(12), 12, 36>>} :
   LET s == [v |-> <<2, N1(3)>>, X |-> <<>>] r == Run(tab, "linear", P, t0, t1, h, s) u == t1 - t0 IN
   /\ r.v[1] = 2 + P[1] * u
   /\ r.v[2] = (N1(3)) + P[2] * 2 * u + (P[1] * P[2] * u * u) \div 2 + (P[3] * (t1 * t1 - t0 * t0)) \div 2
   /\ Run(tab, "linear", P, t1, t0, h, r) = s
Gen == (Gens /\ t = t0 /\ ks = <<>> /\ t0 # t1) => PrintT("CASE " \o ToJson([tab |-> nm, t0 |-> t0, t1 |-> t1, h |-> h]))
=============================================================================
