------------------------------ MODULE FlagsTrace ------------------------------
(* Checks recorded executions of flaggers and noise estimates against Flags. *)
EXTENDS Flags, Json, IOUtils
VARIABLES k, i
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
T(c) == Cases[c].steps
\* a mean in thousandths; a deviation in hundredths
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == IF lo >= hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m - 1)
MeanOK(st, r) == Abs(r * st.n - 1000 * st.s) <= 2 * st.n
DevOK(st, r) == LET h == (100 * Isqrt(st.nn, 0, 40000)) \div st.n IN r >= h - 3 /\ r <= h + (100 \div st.n) + 3
SeenNoise(o, x) == o.set = x.set /\ (x.set => MeanOK(x.st, o.floor) /\ DevOK(x.st, o.power))
Seen(e) ==
    /\ e.exc = res'.exc \/ ("ch" \in DOMAIN res' /\ res'.ch.st = "unknown")
    /\ ("ch" \in DOMAIN res' /\ res'.ch.st = "known") =>
          e.data = D(res'.ch) /\ e.mask = res'.ch.mask /\ SeenNoise(e.noise, res'.ch.noise)
TraceInit == k \in 1..N /\ i = 0 /\ srcs = Cases[k].srcs /\ ob = <<>> /\ res = [exc |-> ""]
TraceNext == /\ i < Len(T(k)) /\ i' = i + 1 /\ k' = k
             /\ LET e == T(k)[i + 1] IN Apply(e.c) /\ Seen(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, k, i>>
At == IOEnv.PROGRESS = "1" => PrintT(<<"AT", k, i>>)
Done == i = Len(T(k)) => PrintT(<<"DONE", k>>)
=============================================================================
