------------------------------ MODULE Stepper -------------------------------
(* Fixed-step explicit one-step methods as a state machine over the integers.

   A tableau is a common denominator D with integer numerators a, b.  Fields
   return multiples of D, so every stage, every update and every final state
   is an integer and is computed exactly.  Time is counted in integers; field
   arguments see it in 24ths (every tableau here has its nodes on that grid).

   A state has a vector part v (updated by addition) and a list X of 3x3
   matrices updated by exponentials of strictly upper triangular matrices,
   which are again exact: exp(N) = 1 + N + N^2/2.

   Two environments: Digest, a field that depends on the exact value of every
   component and of time and is otherwise erratic, so that any deviation in a
   stage, its time, a weight or the order of the factors changes the outcome;
   and a nilpotent linear field for which fourth order methods and their
   adjoints are exact.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumN(f, n - 1)
Sum(f) == SumN(f, Len(f))
Ab(x) == IF x < 0 THEN 0 - x ELSE x
N1(x) == 0 - x

Tabs == [
  Euler |-> [D |-> 1, a |-> <<<<0>>>>, b |-> <<1>>],
  CG2   |-> [D |-> 2, a |-> <<<<0, 0>>, <<1, 0>>>>, b |-> <<0, 2>>],
  CG3   |-> [D |-> 3672, a |-> <<<<0, 0, 0>>, <<2754, 0, 0>>, <<2023, 578, 0>>>>, b |-> <<936, N1(2448), 5184>>],
  RK4   |-> [D |-> 6, a |-> <<<<0, 0, 0, 0>>, <<3, 0, 0, 0>>, <<0, 3, 0, 0>>, <<0, 0, 6, 0>>>>, b |-> <<1, 2, 2, 1>>],
  Heun  |-> [D |-> 2, a |-> <<<<0, 0>>, <<2, 0>>>>, b |-> <<1, 1>>],
  X3    |-> [D |-> 3, a |-> <<<<0, 0, 0, 0>>, <<2, 0, 0, 0>>, <<1, 1, 0, 0>>, <<0, N1(1), 2, 0>>>>, b |-> <<1, 0, 1, 1>>],
  X4    |-> [D |-> 4, a |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<N1(2), 3, 0>>>>, b |-> <<2, N1(1), 3>>]]
Names == DOMAIN Tabs
Stages(tab) == Len(tab.b)
Node(tab, i) == Sum(tab.a[i])                \* times D

(* ------------------------------------------------------------ time stepping *)
Dir(t0, t1) == IF t1 < t0 THEN N1(1) ELSE 1
NextT(t, t1, h) == IF t1 >= t THEN (IF t + h <= t1 THEN t + h ELSE t1) ELSE (IF t - h >= t1 THEN t - h ELSE t1)
StageT(tab, t, h, i) == (24 * t) + ((h * 24 * Node(tab, i)) \div tab.D)

(* ------------------------------------------------------- one stage or update *)
Idn == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
MMul(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
ExpU(p, q, r) == <<<<1, p, r + ((p * q) \div 2)>>, <<0, 1, q>>, <<0, 0, 1>>>>
RECURSIVE Push(_, _, _, _, _)                \* first factor applied first
Push(M, h, w, ks, j) == IF j = 0 THEN M
   ELSE MMul(ExpU(h * w[j] * ks[j][1], h * w[j] * ks[j][2], h * w[j] * ks[j][3]), Push(M, h, w, ks, j - 1))
Advance(st, h, w, ks, n) ==
   [v |-> [c \in DOMAIN st.v |-> st.v[c] + h * SumN([j \in 1..n |-> w[j] * ks[j].v[c]], n)],
    X |-> [b \in DOMAIN st.X |-> Push(st.X[b], h, w, [j \in 1..n |-> ks[j].X[b]], n)]]

(* ---------------------------------------------------------------- the fields *)
Dig(T, st) == T + Sum([c \in DOMAIN st.v |-> c * (st.v[c] % 7)])
                + Sum([b \in DOMAIN st.X |-> Sum([i \in 1..3 |-> Sum([j \in 1..3 |-> (b + 3 * i + j) * (st.X[b][i][j] % 7)])])])
Digest(P, T, st) == LET S == Dig(T, st) IN      \* in units of D
   [v |-> [c \in DOMAIN st.v |-> 2 * (((S * c + P[c]) % 7) - 3)],
    X |-> [b \in DOMAIN st.X |-> <<2 * (((S + b + P[1]) % 3) - 1), 2 * (((2 * S + b + P[2]) % 3) - 1), 2 * (((S + b + P[3]) % 7) - 3)>>]]
(* x' = a, y' = b x + c t  with parameters P = <<a, b, c>>, only for D = 6 *)
Linear(P, T, st) == [v |-> <<P[1] \div 6, (P[2] * st.v[1] + (P[3] * T) \div 24) \div 6>>, X |-> <<>>]
(* a flow: the last component is a log-density the field must not look at *)
Flow(P, T, st) == LET n == Len(st.v) - 1 S == Dig(T, [v |-> SubSeq(st.v, 1, n), X |-> st.X]) IN
   [v |-> [c \in DOMAIN st.v |-> 2 * (((S * c + P[c]) % 7) - 3)],
    X |-> Digest(P, T, [v |-> SubSeq(st.v, 1, n), X |-> st.X]).X]
Field(kind, P, T, st) == IF kind = "flow" THEN Flow(P, T, st) ELSE IF kind = "digest" THEN Digest(P, T, st) ELSE Linear(P, T, st)

RECURSIVE Ks(_, _, _, _, _, _, _)
Ks(tab, kind, P, t, h, st, i) == IF i = 0 THEN <<>> ELSE
   LET prev == Ks(tab, kind, P, t, h, st, i - 1) IN
   Append(prev, Field(kind, P, StageT(tab, t, h, i), Advance(st, h, tab.a[i], prev, i - 1)))
Step(tab, kind, P, t, h, st) == Advance(st, h, tab.b, Ks(tab, kind, P, t, h, st, Stages(tab)), Stages(tab))
RECURSIVE Run(_, _, _, _, _, _, _)
Run(tab, kind, P, t, t1, h, st) == IF t = t1 THEN st
   ELSE LET n == NextT(t, t1, h) IN Run(tab, kind, P, n, t1, h, Step(tab, kind, P, t, n - t, st))

(* Gradients of w.y(t1) for the linear field: the flow is at most quadratic in
   every input, so central differences of the stepper itself are exact.       *)
Loss(P, t0, t1, h, v, w) == LET r == Run(Tabs.RK4, "linear", P, t0, t1, h, [v |-> v, X |-> <<>>]).v IN w[1] * r[1] + w[2] * r[2]
Grad(P, t0, t1, h, v, w) ==
  LET L(p, s, u, x) == Loss(p, s, u, h, x, w)
      dP(i) == (L([P EXCEPT ![i] = @ + 12], t0, t1, v) - L([P EXCEPT ![i] = @ - 12], t0, t1, v)) \div 12       \* twice the derivative
      dV(i) == (L(P, t0, t1, [v EXCEPT ![i] = @ + 1]) - L(P, t0, t1, [v EXCEPT ![i] = @ - 1])) \div 2
  IN [p |-> <<dP(1), dP(2), dP(3)>>, v |-> <<dV(1), dV(2)>>,
      t |-> <<(L(P, t0 + 1, t1, v) - L(P, t0 - 1, t1, v)) \div 2, (L(P, t0, t1 + 1, v) - L(P, t0, t1 - 1, v)) \div 2>>]
=============================================================================
