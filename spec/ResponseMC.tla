----------------------------- MODULE ResponseMC -----------------------------
(* Laws of power spectra and responses, for every small signal and filter.   *)
EXTENDS Response, TLC
CONSTANTS MaxLen, Amp, MaxFine, MaxCoarse, MaxPer
VARIABLES x, f
Init == x = <<>> /\ f = <<>>
Signals == UNION {[1..n -> (-Amp)..Amp] : n \in 1..MaxLen}
Filters == {t \in (1..MaxFine) \X (1..MaxCoarse) \X (1..MaxPer) : t[3] <= 2 * t[1]}
Next == /\ x = <<>> /\ f = <<>>
        /\ \/ x' \in Signals /\ f' = f
           \/ f' \in {<<2 * t[1], 2 * t[2], t[3]>> : t \in Filters} /\ x' = x
Spec == Init /\ [][Next]_<<x, f>>
N == Len(x)
Near(a, b, e) == Abs(a - b) <= e
Slack == 4 * N * N * Amp * Amp
\* no power is negative; the same at both signs of a frequency; all powers together are N times the energy; a delay changes nothing
Spectra == x /= <<>> =>
    /\ \A k \in 0..(N - 1) : Power(x, k) >= -Slack /\ Near(Power(x, k), Power(x, -k), 0)
    /\ Near(Sum(LAMBDA k : Power(x, k), 0, N - 1), One * N * Auto(x, 0), Slack * N)
    /\ \A k \in 0..(N - 1) : Power([i \in 1..N |-> x[Mod(i, N) + 1]], k) = Power(x, k)
    /\ LET s == Sum(LAMBDA i : x[i], 1, N) IN Near(Power(x, 0), One * s * s, Slack)
\* every frequency has one position
Positions == x /= <<>> => {Mod(Shifted(i, N), N) : i \in 1..N} = 0..(N - 1)
\* filters are symmetric; responses are symmetric about the middle of the channel, and largest near it
Responses == f /= <<>> =>
    LET fine == f[1] coarse == f[2] per == f[3] taps == coarse * per
        h == Taps(taps, 1, coarse)
        g == Response(fine, coarse, per)
        m == TLCEval(MaxSeq(g, 1))
    IN /\ taps > 1 => \A i \in 1..taps : Near(h[i], h[taps + 1 - i], 8)
       /\ \A j \in 2..fine : Near(g[j], g[fine + 2 - j], 3 + m \div 500)
       /\ \A j \in 1..fine : g[j] >= -3
       /\ per >= 2 /\ coarse >= 4 => Near(g[fine \div 2 + 1], m, m \div 12)
=============================================================================
