----------------------------- MODULE ShapeInfo -----------------------------
(* Event shapes are space_shape \o channel_shape.  A descriptor gives some of
   six facts about an event; what it determines is decided by looking at all
   events of a bounded universe that are consistent with it.

   d is a record of six optional facts [e, s, c, ed, sd, cd] (event, space,
   channel shape and their ranks), each <<>> (not given) or <<value>>.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Entries, MaxRank, MaxGiven
VARIABLES space, chan, mask

Shapes(m) == UNION {[1..n -> Entries] : n \in 0..m}
Ex == Shapes(MaxRank) \X Shapes(MaxRank)
Facts == {"e", "s", "c", "ed", "sd", "cd"}
Fact(f, ev) == CASE f = "e" -> ev[1] \o ev[2] [] f = "s" -> ev[1] [] f = "c" -> ev[2]
                 [] f = "ed" -> Len(ev[1]) + Len(ev[2]) [] f = "sd" -> Len(ev[1]) [] f = "cd" -> Len(ev[2])
Desc(m, ev) == [f \in Facts |-> IF f \in m THEN <<Fact(f, ev)>> ELSE <<>>]
Cons(d, ev) == \A f \in Facts : d[f] # <<>> => d[f][1] = Fact(f, ev)
(* completions of a descriptor; the rank bound of the universe must not itself
   determine anything, so the universe reaches the full rank for both parts  *)
Completions(d) == {ev \in Ex : Cons(d, ev)}
Determined(d) == LET K == Completions(d) IN
                 {f \in Facts : Cardinality({Fact(f, ev) : ev \in K}) = 1}
(* The rule-based closure an implementation can apply without knowing that an
   empty part has an empty shape.                                           *)
RECURSIVE Close0(_)
Close0(K) ==
  LET K1 == K \cup (IF {"s", "c"} \subseteq K THEN {"e"} ELSE {})
              \cup (IF "s" \in K THEN {"sd"} ELSE {}) \cup (IF "c" \in K THEN {"cd"} ELSE {})
              \cup (IF "e" \in K THEN {"ed"} ELSE {})
              \cup (IF {"sd", "cd"} \subseteq K THEN {"ed"} ELSE {})
              \cup (IF {"ed", "sd"} \subseteq K THEN {"cd"} ELSE {})
              \cup (IF {"ed", "cd"} \subseteq K THEN {"sd"} ELSE {})
              \cup (IF {"e", "sd"} \subseteq K THEN {"s"} ELSE {})
              \cup (IF {"e", "cd"} \subseteq K THEN {"c"} ELSE {})
  IN IF K1 = K THEN K ELSE Close0(K1)
Closure(d) == Close0({f \in Facts : d[f] # <<>>})

(* choose an event, then which of its facts to reveal, one at a time *)
Init == space \in Shapes(MaxGiven) /\ chan \in Shapes(MaxGiven) /\ mask = {}
Reveal == \E f \in Facts \ mask : mask' = mask \cup {f} /\ UNCHANGED <<space, chan>>
Spec == Init /\ [][Reveal]_<<space, chan, mask>>
TheEvent == <<space, chan>>
TheDesc == Desc(mask, TheEvent)
(* the closure is exactly what the completions determine, except when one part
   has rank 0: then more follows, which an implementation may infer or not   *)
ClosureIsDetermination ==
  LET D == Determined(TheDesc) K == Closure(TheDesc) IN
  K \subseteq D /\ (D # K => (Len(space) = 0 \/ Len(chan) = 0))
Gen == PrintT("CASE " \o ToJson([s |-> space, c |-> chan, m |-> mask]))
=============================================================================
