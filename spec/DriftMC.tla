------------------------------- MODULE DriftMC -------------------------------
(* An integrator that takes one spectrum after the other: every small band, rate and signal. *)
EXTENDS Drift
CONSTANTS MaxT, MaxF, MaxSpan
VARIABLES T, nf, span, x, t, acc, start
vars == <<T, nf, span, x, t, acc, start>>
Ch == 0..(nf - 1)
\* a signal of power 12 drifts along the line of this rate from channel start, across a floor of 1
LineBins(T_, s, c, t_) == {At(T_, s, c, t_, b, {}) : b \in 0..(Smear(T_, s, 1) - 1)}
Init == /\ T \in 2..MaxT /\ nf \in 1..MaxF /\ span \in (-MaxSpan)..MaxSpan /\ start \in 0..(nf - 1)
        /\ x = [p \in (0..(T - 1)) \X (0..(nf - 1)) |-> IF p[2] \in LineBins(T, span, start, p[1]) THEN 12 ELSE 1]
        /\ t = 0 /\ acc = [c \in 0..(nf - 1) |-> 0]
Next == /\ t < T /\ t' = t + 1
        /\ acc' = [c \in Ch |-> IF ~HasLine(span, c) THEN 0
                                ELSE acc[c] + Total(LAMBDA u, f : x[<<u, f>>], T, nf, span, Smear(T, span, 1), c, {}, t, t)]
        /\ UNCHANGED <<T, nf, span, x, start>>
Spec == Init /\ [][Next]_vars
Finished == t = T
Inside == \A u \in 0..(T - 1) : LineBins(T, span, start, u) \subseteq Ch
\* the integrator computes the line integral, and recovers a signal drifting at its rate with full power
Integral == Finished => \A c \in Ch : acc[c] = LineTotal(LAMBDA u, f : x[<<u, f>>], T, nf, span, Smear(T, span, 1), c, {})
Recovered == Finished /\ Inside /\ HasLine(span, start) => acc[start] = 12 * T * Smear(T, span, 1)
Strongest == Finished => \A c \in Ch : acc[c] <= 12 * T * Smear(T, span, 1)
\* lines run from their start channel to start + span, never backwards, and one spectrum after the other joins up
Shape == /\ Offset(T, span, 0, {}) = 0 /\ Offset(T, span, T - 1, {}) = span
         /\ \A u \in 0..(T - 2) : LET d == Offset(T, span, u + 1, {}) - Offset(T, span, u, {})
                                  IN Abs(d) >= 0 /\ (d = 0 \/ Sign(d) = Sign(span)) /\ Abs(d) <= Smear(T, span, 1) + 1
\* a falling rate is the mirror image of the rising one
Mirror == \A c \in Ch, u \in 0..(T - 1), b \in 0..2 :
             At(T, -span, c, u, b, {}) = (nf - 1) - At(T, span, (nf - 1) - c, u, b, {}) \/ span = 0
\* both choices at a tie are nearest
Nearby == \A u \in 0..(T - 1) : LET o == Offset(T, span, u, {}) e == Offset(T, span, u, Ambiguous(T, span))
                                IN 2 * Abs(o * (T - 1) - span * u) <= T - 1 /\ 2 * Abs(e * (T - 1) - span * u) <= T - 1
=============================================================================
