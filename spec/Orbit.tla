------------------------------- MODULE Orbit -------------------------------
(* A point moving along the orbit of a bijection b.

   pos counts how often b has been applied to the starting point.  Every way
   the library offers to run a bijection moves the point by one position:
     F   b.forward                       R   b.reverse
     C   b(...)                          IF  b.invert().forward
     IR  b.invert().reverse              WF  Inverse(b).forward
     IIF b.invert().invert().forward     IIR b.invert().invert().reverse
     WWF Inverse(Inverse(b)).forward     WR  Inverse(b).reverse
   Hi = 1 is for maps whose range lies outside their domain.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS His, Len0
VARIABLES pos, hi, word
Ups   == {"F", "C", "IR", "IIF", "WWF", "WR"}
Downs == {"R", "IF", "WF", "IIR"}
Ops   == Ups \cup Downs
Delta(o) == IF o \in Ups THEN 1 ELSE 0 - 1
Init == pos = 0 /\ hi \in His /\ word = <<>>
Step(o) == /\ pos + Delta(o) \in 0..hi
           /\ pos' = pos + Delta(o) /\ word' = Append(word, o) /\ UNCHANGED hi
Next == Len(word) < Len0 /\ \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_<<pos, hi, word>>

RECURSIVE Net(_)
Net(w) == IF w = <<>> THEN 0 ELSE Delta(Head(w)) + Net(Tail(w))
PositionIsNetMoves == pos = Net(word) /\ pos \in 0..hi
(* a word and its mirror image (each step undone, in reverse order) cancel *)
Undo(w) == [i \in 1..Len(w) |-> IF w[Len(w)+1-i] \in Ups THEN "R" ELSE "F"]
MirrorCancels == Net(word \o Undo(word)) = 0
Gen == Len(word) = Len0 => PrintT("CASE " \o ToJson([hi |-> hi, word |-> word]))
=============================================================================
