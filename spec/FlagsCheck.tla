------------------------------ MODULE FlagsCheck ------------------------------
(* Judges flaggers and noise estimates called on plain arrays, one case per call. *)
EXTENDS Flags, Json, IOUtils
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
W == 64
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == IF lo >= hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m - 1)
MeanOK(st, r) == Abs(r * st.n - 1000 * st.s) <= 2 * st.n
DevOK(st, r) == LET h == (100 * Isqrt(st.nn, 0, 40000)) \div st.n IN r >= h - 3 /\ r <= h + (100 \div st.n) + 3
If(b, x) == IF b THEN {x} ELSE {}
\* the estimate of every channel, in hundredths of an eighth
Estimate(c) ==
    LET o == c.obs  ch == Channel(1)
        bad(f) == LET num == Num(ch, f, c.g[1])  den == Den(ch, f)
                      want == 100 * (num \div den) + (100 * (num % den)) \div den
                  IN den > 0 /\ den < 20000000 /\ Abs(o.v[f + 1] - want) > 2 + Abs(want) \div 2000
    IN IF o.exc /= "" THEN {"outcome: " \o o.exc}
       ELSE IF o.shape /= <<c.src.nf>> THEN {"shape of the estimate"}
       ELSE If(o.after /= c.src.data, "the data changed") \cup If(\E f \in 0..(c.src.nf - 1) : bad(f), "estimate")
Verdict(c) ==
    IF c.op = "estimate" THEN Estimate(c) ELSE
    LET x == Run1(IF c.op = "noise" THEN "noise" ELSE c.op, c.g, Channel(1))
        o == c.obs
        \* kurtosis is decided per channel: one row
        want == IF c.op = "sk" THEN [f \in 1..c.src.nf |-> x.mask[f]] ELSE x.mask
        shape == IF c.op = "sk" THEN <<1, c.src.nf>> ELSE <<c.src.nt, c.src.nf>>
    IN IF x.st = "unknown" THEN {}
       ELSE IF o.exc /= (IF Bad(x) THEN x.st ELSE "") THEN {"outcome: " \o o.exc}
       ELSE IF o.exc /= "" THEN {}
       ELSE If(o.after /= c.src.data, "the data changed")
            \cup IF c.op = "noise" THEN If(~MeanOK(x.noise.st, o.floor), "noise floor") \cup If(~DevOK(x.noise.st, o.power), "noise power")
                 ELSE If(o.shape /= shape, "shape of the flags") \cup If(o.v /= want, "flags")
Init == k \in 1..(IF W < N THEN W ELSE N) /\ srcs = <<Cases[k].src>> /\ ob = <<>> /\ res = [exc |-> ""]
Next == k + W <= N /\ k' = k + W /\ srcs' = <<Cases[k + W].src>> /\ UNCHANGED <<ob, res>>
Spec == Init /\ [][Next]_<<k, vars>>
Report == LET r == Verdict(Cases[k]) IN
          IF r = {} THEN PrintT(<<"DONE", k>>) ELSE PrintT(<<"BAD", k, r>>)
=============================================================================
