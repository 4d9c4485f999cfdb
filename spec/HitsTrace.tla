------------------------------ MODULE HitsTrace ------------------------------
EXTENDS Hits, Json, IOUtils
VARIABLES k, i
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
T(c) == Cases[c].steps
\* observed ratios are in 1/1000
SnrOK(r, o) == IF r[2] = 0 THEN o = r[1] ELSE Abs(o * r[2] - r[1] * 10000000) <= (r[2] + o) + 10 + (r[1] * 10)
SeenHit(h, o) == /\ \A f \in DOMAIN h \ {"snr"} : h[f] = o[f]
                 /\ SnrOK(h.snr, o.snr)
SeenHits(e, c) == /\ e.set = c.set
                  /\ Len(e.hits) = Len(c.hits) /\ \A j \in DOMAIN c.hits : SeenHit(c.hits[j], e.hits[j])
Seen(e) == e.exc = res'.exc /\ ("ch" \in DOMAIN res' => SeenHits(e, res'.ch))
TraceInit == k \in 1..N /\ i = 0 /\ srcs = Cases[k].srcs /\ ob = <<>> /\ res = [exc |-> ""]
TraceNext == /\ i < Len(T(k)) /\ i' = i + 1 /\ k' = k
             /\ LET e == T(k)[i + 1] IN Apply(e.c) /\ Seen(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, k, i>>
At == IOEnv.PROGRESS = "1" => PrintT(<<"AT", k, i>>)
Done == i = Len(T(k)) => PrintT(<<"DONE", k>>)
=============================================================================
