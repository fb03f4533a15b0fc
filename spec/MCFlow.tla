------------------------------- MODULE MCFlow ------------------------------
(* A flow object with a default interval receives forward and reverse calls,
   each of which may override either end of the interval.  Reverse undoes
   forward for the same effective interval.  Prints call sequences.          *)
EXTENDS Stepper, TLC, Json
CONSTANTS D, Depth, None
VARIABLES d0, d1, calls, st, hist
vars == <<d0, d1, calls, st, hist>>
P == <<12, 24, 12>>
Times == (N1(D))..D
Opt == Times \cup {None}
A(c) == IF c.o0 = None THEN d0 ELSE c.o0
B(c) == IF c.o1 = None THEN d1 ELSE c.o1
H(c) == Ab(A(c) - B(c)) \div c.steps
Move(c, s) == LET a == IF c.rev THEN B(c) ELSE A(c) b == IF c.rev THEN A(c) ELSE B(c) IN
              IF a = b THEN s ELSE Run(Tabs.RK4, "linear", P, a, b, H(c), s)
Init == /\ d0 \in Times /\ d1 \in Times /\ d0 # d1 /\ calls = <<>> /\ st = [v |-> <<2, N1(3)>>, X |-> <<>>] /\ hist = <<st>>
Call == /\ Len(calls) < Depth
        /\ \E rev \in BOOLEAN, o0 \in Opt, o1 \in Opt, steps \in {1, 2} :
           LET c == [rev |-> rev, o0 |-> o0, o1 |-> o1, steps |-> steps] IN
           /\ Ab(A(c) - B(c)) % steps = 0 /\ Ab(A(c) - B(c)) > 0
           /\ calls' = Append(calls, c) /\ st' = Move(c, st) /\ hist' = Append(hist, st')
        /\ UNCHANGED <<d0, d1>>
Next == Call
Spec == Init /\ [][Next]_vars
(* the interval alone matters, not the steps taken or how it was specified *)
Undone == \A i \in 1..Len(calls), j \in 1..Len(calls) :
   (j = i + 1 /\ calls[i].rev # calls[j].rev /\ A(calls[i]) = A(calls[j]) /\ B(calls[i]) = B(calls[j])) => hist[j + 1] = hist[i]
Gen == Len(calls) = Depth => PrintT("CASE " \o ToJson([d0 |-> d0, d1 |-> d1, calls |-> calls]))
=============================================================================
