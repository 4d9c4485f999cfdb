------------------------------ MODULE StoreTrace ------------------------------
(* Checks recorded writing and reading of result files against Store. *)
EXTENDS Store, Json, IOUtils
VARIABLES k, i
Cases == ndJsonDeserialize(IOEnv.CASES)
TraceNames == Cases[1].names
N == Len(Cases)
T(c) == Cases[c].steps
Seen(e) == IF res'.exc = "some" THEN e.exc /= ""
           ELSE e.exc = res'.exc /\ ("v" \in DOMAIN res' => e.kind = res'.kind /\ e.v = res'.v)
TraceInit == k \in 1..N /\ i = 0 /\ ob = <<>> /\ files = <<>> /\ res = Ok
TraceNext == /\ i < Len(T(k)) /\ i' = i + 1 /\ k' = k
             /\ LET e == T(k)[i + 1] IN Apply(e.c) /\ Seen(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, k, i>>
At == IOEnv.PROGRESS = "1" => PrintT(<<"AT", k, i>>)
Done == i = Len(T(k)) => PrintT(<<"DONE", k>>)
=============================================================================
