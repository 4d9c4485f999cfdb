------------------------------- MODULE ToneMC -------------------------------
(* Every small band, set of rates, tone and noise: the tone is found where   *)
(* it is, at the rate it drifts with, and nothing is found where it is not.  *)
EXTENDS Tone
CONSTANTS MaxT, MaxF, MaxSpan, Reaches, Steps
VARIABLES g, r, c, p                    \* p, the plane, once the tone is in place
vars == <<g, r, c, p>>
None == [nr |-> 0]
Init == /\ \E T \in 2..MaxT, nf \in {MaxF - 1, MaxF}, lo \in (-MaxSpan)..0, step \in Steps, dm \in {0, 1} :
              g = [nt |-> T, nf |-> nf, lo |-> lo, step |-> step, nr |-> (((MaxSpan - lo) \div step) + 1), desmear |-> dm]
        /\ r \in 1..g.nr /\ c \in 0..(g.nf - 1) /\ InBand(g, r, c) /\ p = None
Next == /\ p = None /\ UNCHANGED <<g, r, c>>
        /\ \E noise \in {1, 2 * Unit(g), 4 * Unit(g)}, reach \in Reaches : p' = PlaneOf(g, Bins(g, r, c), noise, reach)
Spec == Init /\ [][Next]_vars
Tip == <<r, c + 1>>
Exact == \A k \in 1..g.nr : Unit(g) % (SmearOf(g, k) * g.nt) = 0
\* its bin is the one and only strongest of the plane, at full power
Unique == /\ p.v[r][c + 1] = Unit(g)
          /\ \A x \in (1..g.nr) \X (1..g.nf) : x = Tip \/ p.v[x[1]][x[2]] * p.v[x[1]][x[2]] * p.n[x[1]] < Unit(g) * Unit(g) * p.n[r]
\* a tone that can be heard makes a candidate that is there; every candidate's strongest bin is on a line that meets the tone;
\* a loud one makes just one candidate, when steps between rates do not take lines out of each other's reach
Found(Q) == Audible(p, Tip) => \E q \in Q : Strongest(p, q) = {Tip}
Explained(Q) == \A q \in Q : \A x \in Strongest(p, q) : Meet(g, x[1], x[2] - 1, r, c)
One(Q) == Loud(p) /\ p.d > g.step + 1 => Cardinality(Q) = 1
Peak == Audible(p, Tip) /\ HoodInside(p, Tip) => IsPeak(p, Tip)
Tones == p /= None => Exact /\ Unique /\ Peak /\ LET Q == Candidates(p) IN Found(Q) /\ Explained(Q) /\ One(Q)
=============================================================================
