-------------------------------- MODULE Drift --------------------------------
(* The drift plane of a spectrogram: power and flag counts integrated along  *)
(* straight lines.  A rate is given by its span, the number of channels it   *)
(* crosses between the first and the last of T spectra.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE 1
\* a/b to the nearest integer, halves away from zero (b > 0)
Nearest(a, b) == Sign(a) * ((2 * Abs(a) + b) \div (2 * b))

NRates(lo, hi, step) == (hi - lo) \div step
Span(lo, step, i) == lo + (i - 1) * step                     \* of rate i, from 1
Smear(T, span, desmear) == IF desmear = 1 /\ Nearest(Abs(span), T - 1) > 1 THEN Nearest(Abs(span), T - 1) ELSE 1
\* channel offset of the line at spectrum t (from 0).  Where the line runs exactly between two channels and its slope is no
\* binary fraction, either is the nearest: `down` holds the spectra at which the one nearer the start is taken
RECURSIVE Odd(_)
Odd(b) == IF b % 2 = 0 THEN Odd(b \div 2) ELSE b
Tie(T, span, t) == (2 * Abs(span) * t) % (2 * (T - 1)) = T - 1
BinarySlope(T, span) == \* span / (T - 1) in lowest terms has a power of two below
    span % Odd(T - 1) = 0
Ambiguous(T, span) == IF BinarySlope(T, span) THEN {} ELSE {t \in 0..(T - 1) : Tie(T, span, t)}
Offset(T, span, t, down) == LET o == Nearest(span * t, T - 1) IN IF t \in down THEN o - Sign(span) ELSE o
\* which channels have a line: falling lines that would leave the band are left out
HasLine(span, c) == span >= 0 \/ c + span >= 0
\* the channel of bin b (from 0) of the line starting in channel c, at spectrum t
At(T, span, c, t, b, down) == c + Offset(T, span, t, down) + (IF span >= 0 THEN b ELSE -b)
\* total of value(t, x) over the samples of the lines at spectra t1..t2 that lie in the band 0..nf-1
RECURSIVE Along(_, _, _, _)
Along(value(_, _), t, a, z) == IF a > z THEN 0 ELSE value(t, a) + Along(value, t, a + 1, z)
RECURSIVE Total(_, _, _, _, _, _, _, _, _)
Total(value(_, _), T, nf, span, smear, c, down, t1, t2) ==
    IF t1 > t2 THEN 0
    ELSE LET x0 == At(T, span, c, t1, 0, down)
             lo == IF span >= 0 THEN x0 ELSE x0 - smear + 1
             hi == IF span >= 0 THEN x0 + smear - 1 ELSE x0
             a == IF lo < 0 THEN 0 ELSE lo
             z == IF hi >= nf THEN nf - 1 ELSE hi
         IN Along(value, t1, a, z) + Total(value, T, nf, span, smear, c, down, t1 + 1, t2)
LineTotal(value(_, _), T, nf, span, smear, c, down) ==
    IF HasLine(span, c) THEN Total(value, T, nf, span, smear, c, down, 0, T - 1) ELSE 0
=============================================================================
