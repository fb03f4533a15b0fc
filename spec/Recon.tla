------------------------------- MODULE Recon -------------------------------
(* A module is a list of leaves in path order, each a parameter or not.  Its
   parameters travel through representations - one flat array (A), a list of
   leaves (L), a dictionary (D), a state (S) - and back into a module.  Every
   representation is a layout of the same content; `bump` adds 1, 2, 3, ... to
   the parameters in order, done inside the representation.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Trees
VARIABLES tree, content, word

Reps == {"A", "L", "D", "S"}
ParamIdx(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i].par)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Layout(r, t, c) ==      \* c: one sequence of values per leaf of t
  LET ps == ParamIdx(t) IN
  CASE r = "A" -> Flat([j \in 1..Len(ps) |-> c[ps[j]]])
    [] r = "L" -> [j \in 1..Len(ps) |-> c[ps[j]]]
    [] OTHER   -> [j \in 1..Len(ps) |-> [path |-> t[ps[j]].path, vals |-> c[ps[j]]]]
RECURSIVE Offset(_, _, _)
Offset(t, c, i) == IF i = 1 THEN 0 ELSE Offset(t, c, i - 1) + (IF t[i-1].par THEN Len(c[i-1]) ELSE 0)
Bump(t, c) == [i \in 1..Len(t) |-> IF t[i].par THEN [k \in 1..Len(c[i]) |-> c[i][k] + Offset(t, c, i) + k] ELSE c[i]]
Total(t, c) == Len(Layout("A", t, c))
(* reading a layout back *)
Cut(a, from, n) == [k \in 1..n |-> a[from + k]]
Read(r, t, lay, c) ==
  LET ps == ParamIdx(t)
      Pos(i) == CHOOSE j \in 1..Len(ps) : ps[j] = i IN
  [i \in 1..Len(t) |-> IF ~t[i].par THEN c[i]
     ELSE CASE r = "A" -> Cut(lay, Offset(t, c, i), Len(c[i]))
            [] r = "L" -> lay[Pos(i)]
            [] OTHER -> lay[CHOOSE j \in 1..Len(lay) : lay[j].path = t[i].path].vals]

Init == \E t \in Trees : tree = t /\ content = [i \in 1..Len(t) |-> [k \in 1..t[i].n |-> 100 * i + k]] /\ word = <<>>
Via(r) == /\ content' = Bump(tree, content)
          /\ word' = Append(word, r) /\ UNCHANGED tree
Next == Len(word) < MaxLen /\ \E r \in Reps : Via(r)
Spec == Init /\ [][Next]_<<tree, content, word>>
ReadsBack == \A r \in Reps : Read(r, tree, Layout(r, tree, content), content) = content
BumpIsRepresentationFree ==
  Layout("A", tree, Bump(tree, content)) = [k \in 1..Total(tree, content) |-> Layout("A", tree, content)[k] + k]
Constants == \A i \in 1..Len(tree) : ~tree[i].par => content[i] = [k \in 1..tree[i].n |-> 100 * i + k]
Gen == (Len(word) = MaxLen /\ tree = CHOOSE t \in Trees : TRUE) => PrintT("CASE " \o ToJson([word |-> word]))
=============================================================================
