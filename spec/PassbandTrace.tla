----------------------------- MODULE PassbandTrace -----------------------------
EXTENDS Passband, Json, IOUtils
VARIABLES k, i
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
T(c) == Cases[c].steps
Close(x, r) == Abs((x[1] * 4096) \div x[2] - r) <= 2      \* in 4096ths
SeenChannel(e, c) ==
    /\ e.mask = srcs[c.src].mask
    /\ LET data == IF c.norm THEN e.plain ELSE e.data      \* e.data: counted in the case's unit
       IN Len(data) = Len(c.v) /\ \A p \in DOMAIN c.v : Close(c.v[p], data[p])
    /\ e.md = srcs[c.src].md
Seen(e) == e.exc = res'.exc /\ ("ch" \in DOMAIN res' => SeenChannel(e, res'.ch))
TraceInit == k \in 1..N /\ i = 0 /\ srcs = Cases[k].srcs /\ hs = Cases[k].hs /\ ob = <<>> /\ res = [exc |-> ""]
TraceNext == /\ i < Len(T(k)) /\ i' = i + 1 /\ k' = k
             /\ LET e == T(k)[i + 1] IN Apply(e.c) /\ Seen(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, k, i>>
At == IOEnv.PROGRESS = "1" => PrintT(<<"AT", k, i>>)
Done == i = Len(T(k)) => PrintT(<<"DONE", k>>)
=============================================================================
