----------------------------- MODULE DriftCheck -----------------------------
(* Judges drift planes integrated by the implementation.                     *)
EXTENDS Drift, Json, IOUtils
CONSTANT What                    \* "power" or "flags"
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
W == 64
Scale == 4096
If(b, x) == IF b THEN {x} ELSE {}
Bit(m, f) == (m \div f) % 2
\* choices at the ties of a rate under which row i of the plane is the line integral
Choices(c, o, p, i) ==
    LET sp == Span(p.lo, p.step, i)
        sm == Smear(c.nt, sp, p.desmear)
        x(t, f) == c.data[t * c.nf + f + 1]
    IN {d \in SUBSET Ambiguous(c.nt, sp) :
          \A f \in 1..c.nf : Abs(o.plane[(i - 1) * c.nf + f] * c.nt * sm - Scale * LineTotal(x, c.nt, c.nf, sp, sm, f - 1, d))
                             <= sm * c.nt + 600}
Counts(c, p, i, d, bit) ==
    LET sp == Span(p.lo, p.step, i)
        m(t, f) == Bit(c.mask[t * c.nf + f + 1], bit)
    IN [f \in 1..c.nf |-> LineTotal(m, c.nt, c.nf, sp, Smear(c.nt, sp, p.desmear), f - 1, d)]
Row(v, nf, i) == SubSeq(v, (i - 1) * nf + 1, i * nf)
RateOK(c, o, p, i) ==
    LET sp == Span(p.lo, p.step, i)
        r == o.rates[i]
    IN /\ r.idx = i - 1 /\ r.span = sp /\ r.smear = Smear(c.nt, sp, p.desmear)
       /\ Abs(r.slope * (c.nt - 1) - 1000000 * sp) <= (c.nt - 1) + 1 + (Abs(sp) \div 5)
       /\ Abs(r.hz * (c.nt - 1) * c.ts - 1000 * sp * c.F) <= (c.nt - 1) * c.ts + 2 + ((Abs(sp) * Abs(c.F)) \div 1000)
Channel(c, o, p) ==
    LET nr == NRates(p.lo, p.hi, p.step) IN
    IF o.exc /= "" THEN {"failed: " \o o.exc}
    ELSE IF o.shape /= <<nr, c.nf>> \/ Len(o.rates) /= nr \/ o.cshape /= <<nr, c.nf>> THEN {"shape"}
    ELSE IF What = "power"
    THEN If(o.steps /= c.nt, "number of spectra integrated")
         \cup {"rate " \o ToString(i) : i \in {j \in 1..nr : ~RateOK(c, o, p, j)}}
         \cup {"row " \o ToString(i) : i \in {j \in 1..nr : Choices(c, o, p, j) = {}}}
    ELSE {"counts of row " \o ToString(i) : i \in {j \in 1..nr :
             LET ds == Choices(c, o, p, j) IN
             /\ ds /= {}                        \* else the line is wrong, not the counts on it
             /\ ~\E d \in ds : /\ Row(o.low, c.nf, j) = Counts(c, p, j, d, 2)
                               /\ Row(o.high, c.nf, j) = Counts(c, p, j, d, 4)
                               /\ Row(o.roll, c.nf, j) = Counts(c, p, j, d, 1)}}
         \* a hit carries the counts at its strongest rate and channel
         \cup {"counts of hit " \o ToString(h) : h \in {g \in 1..Len(o.hits) :
                 LET x == o.hits[g] q == (x.rate * c.nf) + x.chan + 1
                 IN ~(x.low = o.low[q] /\ x.high = o.high[q] /\ x.roll = o.roll[q])}}
Verdict(c) == UNION {Channel(c.chs[j], c.obs[j], c.p) : j \in 1..Len(c.chs)} \cup If(Len(c.obs) /= Len(c.chs), "channels missing")
Init == k \in 1..(IF W < N THEN W ELSE N)
Next == k + W <= N /\ k' = k + W
Spec == Init /\ [][Next]_k
Report == LET r == Verdict(Cases[k]) IN
          IF r = {} THEN PrintT(<<"DONE", k>>) ELSE PrintT(<<"BAD", k, r>>)
=============================================================================
