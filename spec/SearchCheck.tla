----------------------------- MODULE SearchCheck -----------------------------
(* Judges candidates the implementation found in a drift plane.              *)
EXTENDS Search, Json, IOUtils
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
W == 64
If(b, x) == IF b THEN {x} ELSE {}
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == IF lo >= hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m - 1)
NoiseOK(p, n, noise) == LET e == Isqrt((100000000 \div n) * p.power * p.power, 0, 40001) IN noise >= e - 3 /\ noise <= e + 3 + p.power
SnrOK(p, c, snr) == LET a == p.v[c[1]][c[2]] - p.floor
                        e == (a * Isqrt(1000000 * p.n[c[1]], 0, 40000)) \div p.power
                    IN Abs(snr - e) <= 2 + (a \div p.power) + (e \div 1000000)
Power(p, h) == LET c == h.at IN
    If(h.max /= p.v[c[1]][c[2]], "power") \cup If(~NoiseOK(p, p.n[c[1]], h.noise), "noise") \cup If(~SnrOK(p, c, h.snr), "signal to noise ratio")
Strongest(p, h) == LET L == Range(h.loc)
                       row == {c[2] : c \in {d \in L : d[1] = h.at[1]}}
                       lo == CHOOSE f \in row : \A g \in row : f <= g
                       up == CHOOSE f \in row : \A g \in row : f >= g
                   IN IF h.at \notin L \/ \E c \in L : Ratio(p, c) > Ratio(p, h.at) THEN {"not the strongest bin"}
                      ELSE Power(p, h) \cup If(h.binw /= up - lo, "width") \cup If(h.mid /= <<h.at[1], ((up + lo - 2) \div 2) + 1>>, "centre")
Tip(p, h) == LET lo == RunEnd(p, h.at, -1) up == RunEnd(p, h.at, 1) IN
    If(Range(h.loc) /= {h.at}, "location") \cup Power(p, h)
    \cup If(h.binw /= up - lo, "width") \cup If(h.mid /= <<h.at[1], ((up + lo - 2) \div 2) + 1>>, "centre")
Sets(hs) == {Range(hs[i].loc) : i \in 1..Len(hs)}
Verdict(c) ==
    LET hs == c.hits IN
    IF c.exc /= "" THEN {"failed: " \o c.exc}
    ELSE IF \E i \in 1..Len(hs) : Len(hs[i].loc) /= Cardinality(Range(hs[i].loc)) THEN {"a bin twice in one candidate"}
    ELSE IF Cardinality(Sets(hs)) /= Len(hs) THEN {"a candidate twice"}
    ELSE IF c.method = "mask" THEN If(Sets(hs) /= Groups({x \in Cells(c.p) : c.p.v[x[1]][x[2]] > 0}, {x \in Cells(c.p) : c.p.v[x[1]][x[2]] > 0}, Range(c.nb)), "components")
    ELSE IF c.method = "cc" THEN If(Sets(hs) /= Components(c.p), "components") \cup UNION {Strongest(c.p, hs[i]) : i \in 1..Len(hs)}
    ELSE LET F == {hs[i].at : i \in 1..Len(hs)} IN
         IF \E x \in F : ~Peak(c.p, x) THEN {"not a peak"}
         ELSE If(\E x \in Above(c.p) \ F : Isolated(c.p, x), "isolated peak missed")
              \cup UNION {Tip(c.p, hs[i]) : i \in 1..Len(hs)}
Init == k \in 1..(IF W < N THEN W ELSE N)
Next == k + W <= N /\ k' = k + W
Spec == Init /\ [][Next]_k
Report == LET r == Verdict(Cases[k]) IN
          IF r = {} THEN PrintT(<<"DONE", k>>) ELSE PrintT(<<"BAD", k, r>>)
=============================================================================
