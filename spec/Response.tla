------------------------------ MODULE Response ------------------------------
(* Power spectra, low-pass prototypes, and the response of a coarse channel  *)
(* of a polyphase filter bank, in fixed point.                               *)
EXTENDS Integers, Sequences, TLC
One == 16384
Half == 8192
Round(a, b) == (a + b \div 2) \div b
Mod(a, b) == ((a % b) + b) % b
\* cos(2 pi t / b) for 0 <= 4 t <= b, by its series
FirstQuarter(t, b) ==
    LET th == Round(102944 * t, b)
        x  == Round(th * th, One)
        c4 == One - Round(x, 56)
        c3 == One - Round(Round(x * c4, One), 30)
        c2 == One - Round(Round(x * c3, One), 12)
    IN One - Round(Round(x * c2, One), 2)
\* cos(2 pi a / b)
Cos(a, b) ==
    LET m == Mod(a, b)
        t == IF 2 * m > b THEN b - m ELSE m
    IN IF 4 * t > b THEN -FirstQuarter(b - 2 * t, 2 * b) ELSE FirstQuarter(t, b)
RECURSIVE Sum(_, _, _)
Sum(F(_), i, n) == IF i > n THEN 0 ELSE F(i) + Sum(F, i + 1, n)
Abs(x) == IF x < 0 THEN -x ELSE x
----------------------------------------------------------------------------
(* The power of frequency k of x (any integers): the cosine transform of its *)
(* circular autocorrelation; in units of 1/One.                              *)
Auto(x, d) == LET n == Len(x) IN Sum(LAMBDA i : x[i] * x[Mod(i - 1 + d, n) + 1], 1, n)
Autos(x) == TLCEval([d \in 1..Len(x) |-> Auto(x, d - 1)])
Cosines(n) == TLCEval([k \in 1..n |-> Cos(k - 1, n)])
PowerFrom(r, c, k) == LET n == Len(r) IN Sum(LAMBDA d : r[d + 1] * c[Mod(k * d, n) + 1], 0, n - 1)
Power(x, k) == PowerFrom(Autos(x), Cosines(Len(x)), k)
\* frequencies from most negative to most positive: position i (from 1) of n
Shifted(i, n) == i - 1 - n \div 2
\* v, in quarters, is the shifted power spectrum of x
IsSpectrum(v, x) ==
    LET n == Len(x) r == Autos(x) c == Cosines(n) IN
    /\ Len(v) = n
    /\ \A i \in 1..n : Abs(v[i] - Round(PowerFrom(r, c, Shifted(i, n)), One \div 4)) <= 4 + (n * r[1]) \div 1000
----------------------------------------------------------------------------
(* Taps of a low-pass filter of cutoff p/q: sinc times a Hamming window      *)
Hamming(n, taps) == 8847 - Round(7537 * Cos(n, taps - 1), One)
Sinc(u, p, q) ==        \* sinc(p u / 2 q)
    IF p * u = 0 THEN One
    ELSE Round(Round(Cos(p * u - q, 4 * q) * 2 * q, Abs(p * u)) * 5215, One) * (IF p * u < 0 THEN -1 ELSE 1)
Tap(n, taps, p, q) == Round(Sinc(2 * n - (taps - 1), p, q) * Hamming(n, taps), One)
Taps(taps, p, q) == TLCEval([n \in 1..taps |-> Tap(n - 1, taps, p, q)])
\* v, in units of 1/One, is that filter
IsFilter(v, taps, p, q) == LET h == Taps(taps, p, q) IN Len(v) = taps /\ \A n \in 1..taps : Abs(v[n] - h[n]) <= 24
----------------------------------------------------------------------------
(* The response of a coarse channel: `coarse` channels of `fine` fine        *)
(* channels, `per` taps each.  The power of the prototype at the fine        *)
(* channels' resolution, folded: what leaks in from the other channels adds. *)
(* The outermost channel, split between both ends of the band, is left out.  *)
RECURSIVE MaxSeq(_, _)
MaxSeq(s, i) == IF i = Len(s) THEN s[i] ELSE LET m == MaxSeq(s, i + 1) IN IF s[i] > m THEN s[i] ELSE m
Response(fine, coarse, per) ==
    LET taps == per * coarse
        n == fine * coarse
        h == Taps(taps, 1, coarse)
        top == MaxSeq(h, 1)
        q == TLCEval([i \in 1..taps |-> Round(h[i] * 4096, top)])        \* in 1/4096 of the largest
        r == TLCEval([d \in 1..taps |-> Round(Sum(LAMBDA i : q[i] * q[i + d - 1], 1, taps - d + 1), 2048)])      \* in 1/8192
        c == Cosines(n)
        PowerAt(f) == r[1] + 2 * Sum(LAMBDA d : Round(r[d] * c[Mod(f * (d - 1), n) + 1], One), 2, taps)
    IN TLCEval([j \in 1..fine |-> Round(Sum(LAMBDA m : PowerAt((fine \div 2) + m * fine + j - 1 - n \div 2), 0, coarse - 2), 16)])
\* v, in units of 1/10000, is the response with a maximum of one
IsResponse(v, fine, coarse, per) ==
    LET g == Response(fine, coarse, per) m == MaxSeq(g, 1)
    IN Len(v) = fine /\ \A j \in 1..fine : v[j] \in 0..10001 /\ Abs(v[j] * m - 10000 * g[j]) <= 30 * m
=============================================================================
