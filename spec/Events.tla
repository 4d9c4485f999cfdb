-------------------------------- MODULE Events --------------------------------
(* Searching a cadence for events: signals in several scans of the first     *)
(* target (ON) and in no scan of any other (OFF).                            *)
(* A hit is [id, f, t, u, d, p, s, b]: start frequency in Hz, start time and *)
(* duration in s, drift in 1/10 Hz/s, power, ratio, bandwidth.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Slack             \* how far rounding may move a distance
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Limit == 50000             \* distances are in 1/1000
\* a hundredth of the distance in Hz where both hits would be half-way through the time they cover,
\* and ten times the square of the relative difference of the drifts
Distance(a, b) ==
    LET last == Max(a.t + a.u, b.t + b.u)
        first == Min(a.t, b.t)
        fd == Abs(20 * (a.f - b.f) + a.d * (last + first - 2 * a.t) - b.d * (last + first - 2 * b.t))
        q == (a.d * a.d) + (b.d * b.d)
    IN (fd \div 2) + (IF a.d = b.d THEN 0 ELSE (1000000 * (a.d - b.d) * (a.d - b.d)) \div (q * q))
VARIABLES on,     \* the hits left in every ON scan
          offs,   \* the hits of all OFF scans
          si, hi, \* scan and position of the hit an event starts with
          ms,     \* the ON scan to be matched next, 0 between events
          ev, events
vars == <<on, offs, si, hi, ms, ev, events>>
RECURSIVE SumD(_, _)
SumD(e, h) == IF e = <<>> THEN 0 ELSE Distance(Head(e), h) + SumD(Tail(e), h)
ToEvent(e, h) == LET D == {Distance(e[j], h) : j \in DOMAIN e} IN CHOOSE d \in D : \A x \in D : d <= x
Remove(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
Searching == si <= Len(on)
Start == /\ ms = 0 /\ Searching
         /\ IF hi <= Len(on[si]) THEN ev' = <<on[si][hi]>> /\ ms' = si + 1 /\ UNCHANGED <<si, hi>>
            ELSE si' = si + 1 /\ hi' = 1 /\ UNCHANGED <<ev, ms>>
         /\ UNCHANGED <<on, offs, events>>
\* the hit of the next scan nearest to the event joins it, if it is near enough
Match == /\ ms > 0 /\ ms <= Len(on) /\ ms' = ms + 1
         /\ LET best == {j \in DOMAIN on[ms] : \A i \in DOMAIN on[ms] : ToEvent(ev, on[ms][j]) <= ToEvent(ev, on[ms][i]) + Slack} IN
            \/ /\ \A j \in DOMAIN on[ms] : ToEvent(ev, on[ms][j]) >= Limit - Slack
               /\ UNCHANGED <<on, ev>>
            \/ \E j \in best : /\ ToEvent(ev, on[ms][j]) < Limit + Slack
                               /\ ev' = Append(ev, on[ms][j]) /\ on' = [on EXCEPT ![ms] = Remove(@, j)]
         /\ UNCHANGED <<offs, si, hi, events>>
\* an event needs two hits and no OFF hit near, in the mean, to its hits
Near(e, s) == \E j \in DOMAIN offs : SumD(e, offs[j]) < (Limit + s) * Len(e)
Close == /\ ms > Len(on) /\ ms' = 0 /\ hi' = hi + 1 /\ ev' = <<>>
         /\ \/ Len(ev) > 1 /\ ~Near(ev, -Slack) /\ events' = Append(events, [hits |-> ev, scan |-> si])
            \/ (Len(ev) < 2 \/ Near(ev, Slack)) /\ events' = events
         /\ UNCHANGED <<on, offs, si>>
Next == Start \/ Match \/ Close
Finished == ~Searching
=============================================================================
