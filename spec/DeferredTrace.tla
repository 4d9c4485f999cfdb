---------------------------- MODULE DeferredTrace ----------------------------
(* Checks recorded executions against Deferred.  After every call the number *)
(* of runs behind every live handle and every array kept were read back.     *)
EXTENDS Deferred, Json, IOUtils
VARIABLES k, i
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
T(c) == Cases[c].steps
Seen(e) ==
    /\ Len(e.runs) = Cardinality(DOMAIN ds') /\ Len(e.arrays) = Cardinality(DOMAIN as')
    /\ \A j \in 1..Len(e.runs) : e.runs[j].h \in DOMAIN ds' /\ e.runs[j].n = srcs'[ds'[e.runs[j].h]].n
    /\ \A j \in 1..Len(e.arrays) : e.arrays[j].h \in DOMAIN as' /\ e.arrays[j].v = bufs'[as'[e.arrays[j].h]]
TraceInit == Init /\ k \in 1..N /\ i = 0
TraceNext == /\ i < Len(T(k)) /\ i' = i + 1 /\ k' = k
             /\ LET e == T(k)[i + 1] IN Apply(e.c) /\ e.val = res' /\ Seen(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, k, i>>
At == IOEnv.PROGRESS = "1" => PrintT(<<"AT", k, i>>)
Done == i = Len(T(k)) => PrintT(<<"DONE", k>>)
=============================================================================
