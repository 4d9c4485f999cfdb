------------------------------- MODULE Search -------------------------------
(* Searching a drift plane for candidate signals.  A plane is                *)
(*   nr rates by nf channels, v[r][f] its power, n[r] the number of samples  *)
(*   that were averaged, and its signal-to-noise ratio in (r, f) is          *)
(*     (v[r][f] - floor) / (power / sqrt(n[r])).                             *)
(* Thresholds are in halves.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Cells(p) == (1..p.nr) \X (1..p.nf)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
First(S) == CHOOSE a \in S : \A b \in S : a = b \/ Before(a, b)
\* the square of the ratio times power^2, with the sign of the ratio: orders like the ratio
Ratio(p, c) == LET a == p.v[c[1]][c[2]] - p.floor IN (IF a < 0 THEN -1 ELSE 1) * a * a * p.n[c[1]]
\* ratio > thr * num/den
Exceeds(p, c, num, den) == 4 * den * den * Ratio(p, c) > num * num * p.thr * p.thr * p.power * p.power
Above(p) == {c \in Cells(p) : Exceeds(p, c, 1, 1)}
Half(p) == {c \in Cells(p) : Exceeds(p, c, 1, 2)}
\* the neighbourhood of reach d, relative to a bin: rates and channels up to (not including) +d and from -d
Around(d) == {o \in ((-d)..(d - 1)) \X ((-d)..(d - 1)) : o[1] >= Abs(o[2]) - d /\ o[1] < d - Abs(o[2])}
Neighbours(c, nb) == {<<c[1] + o[1], c[2] + o[2]>> : o \in nb}
----------------------------------------------------------------------------
(* connected components *)
RECURSIVE Reach(_, _, _, _)
Reach(S, new, within, nb) == IF new = {} THEN S
                             ELSE LET more == (UNION {Neighbours(c, nb) : c \in new} \cap within) \ (S \cup new)
                                  IN Reach(S \cup new, more, within, nb)
\* groups grown one after the other from the first seed left, through the bins left
RECURSIVE Groups(_, _, _)
Groups(seeds, within, nb) == IF seeds = {} THEN {}
                             ELSE LET g == Reach({}, {First(seeds)}, within, nb)
                                  IN {g} \cup Groups(seeds \ g, within \ g, nb)
Components(p) == Groups(Above(p), Half(p), Around(p.d))
----------------------------------------------------------------------------
(* local maxima *)
Hood(p, c) == Neighbours(c, Around(p.d) \ {<<0, 0>>})
Peak(p, c) == Exceeds(p, c, 1, 1) /\ \A b \in Hood(p, c) : b \in Cells(p) /\ Ratio(p, b) < Ratio(p, c)
\* the first channels below and above that are not part of the run of a peak
RECURSIVE RunEnd(_, _, _)
RunEnd(p, c, dir) == LET b == <<c[1], c[2] + dir>> IN
    IF b \in Cells(p) /\ Exceeds(p, b, 1, 1) /\ p.v[b[1]][b[2]] < p.v[c[1]][c[2]] THEN RunEnd(p, b, dir) ELSE b[2]
RunOf(p, c) == {<<c[1], f>> : f \in (RunEnd(p, c, -1) + 1)..(RunEnd(p, c, 1) - 1)}
\* a peak no stronger bin competes with, in either direction, must be found
Isolated(p, c) == /\ Peak(p, c)
                  /\ \A b \in Above(p) : c \in Hood(p, b) => Ratio(p, b) < Ratio(p, c)
                  /\ \A b \in Above(p) \ {c} : Peak(p, b) => c \notin RunOf(p, b)
=============================================================================
