------------------------------- MODULE MCMono ------------------------------
(* A probe walks up the arguments of a map and records exact values; splines
   are first built knot by knot.  Values rise strictly and stay in range.     *)
EXTENDS Mono, TLC, Json
CONSTANTS Gaps, Slopes, MinW, MinH, MaxBins, Step, Modes
VARIABLES mode, fam, par, spl, at, out
vars == <<mode, fam, par, spl, at, out>>
Empty == [xs |-> <<0>>, ys |-> <<0>>, ds |-> <<16>>]
Init == \/ /\ "family" \in Modes /\ mode = "family" /\ fam \in Families /\ par \in Params(fam) /\ spl = Empty /\ at = 0 /\ out = <<>>
        \/ /\ "build" \in Modes /\ mode = "build" /\ fam = "spline" /\ par = <<1, 1, 1>> /\ spl = Empty /\ at = 0 /\ out = <<>>
Last(s) == s[Len(s)]
Knot == /\ mode = "build" /\ Len(spl.xs) < MaxBins
        /\ \E dx \in Gaps, dy \in Gaps, d \in Slopes :
           LET x == Last(spl.xs) + MinW + dx y == Last(spl.ys) + MinH + dy IN
           /\ x > Last(spl.xs) /\ y > Last(spl.ys) /\ x + MinW <= T /\ x < T /\ y + MinH <= T /\ y < T
           /\ spl' = [xs |-> Append(spl.xs, x), ys |-> Append(spl.ys, y), ds |-> Append(spl.ds, d)]
        /\ UNCHANGED <<mode, fam, par, at, out>>
Close == /\ mode = "build"
         /\ spl' = [xs |-> Append(spl.xs, T), ys |-> Append(spl.ys, T), ds |-> Append(spl.ds, 16)]
         /\ mode' = "spline" /\ at' = N1(8) /\ out' = <<At(spl', N1(8))>> /\ UNCHANGED <<fam, par>>
Walk == /\ mode = "spline" /\ at < 8 * T + 8
        /\ at' = at + Step /\ out' = <<Last(out), At(spl, at')>> /\ UNCHANGED <<mode, fam, par, spl>>
Visit == /\ mode = "family" /\ at < Len(Chain(fam))
         /\ at' = at + 1 /\ out' = Append(out, Val(fam, par, Chain(fam)[at'][1], Chain(fam)[at'][2])) /\ UNCHANGED <<mode, fam, par, spl>>
Next == Knot \/ Close \/ Walk \/ Visit
Spec == Init /\ [][Next]_vars

Ordered == mode = "family" => \A i \in 2..Len(out) : IF Rising(fam, par) THEN Before(out[i - 1], out[i]) ELSE Before(out[i], out[i - 1])
InRange == mode = "family" => \A i \in DOMAIN out : /\ HasLow(fam) => Before(LowEnd(fam), out[i])
                                                   /\ Bounded(fam) => Before(out[i], <<1, 1>>)
SplineRises == (mode = "spline" /\ Len(out) = 2) => out[1] < out[2]
SplineInterpolates == (mode = "spline" /\ at % 8 = 0) => \A k \in DOMAIN spl.xs : at = 8 * spl.xs[k] => Ab(Last(out) - (spl.ys[k] * (Full \div T))) <= 1
SplineKeepsInterval == (mode = "spline") => ((at >= 0 /\ at <= 8 * T) <=> (Last(out) >= 0 /\ Last(out) <= Full))
SplineMirrors == mode = "spline" => Ab(At(Mirror(spl), (8 * T) - at) + Last(out) - Full) <= 2
Gen == /\ (mode = "family" /\ at = Len(Chain(fam))) => PrintT("CASE " \o ToJson([kind |-> "family", fam |-> fam, par |-> par, chain |-> Chain(fam)]))
GenSpline == (mode = "spline" /\ at = N1(8)) => PrintT("CASE " \o ToJson([kind |-> "spline", xs |-> spl.xs, ys |-> spl.ys, ds |-> spl.ds, minw |-> MinW, minh |-> MinH]))
=============================================================================
