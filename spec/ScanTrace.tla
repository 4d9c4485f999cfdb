------------------------------ MODULE ScanTrace ------------------------------
(* Checks recorded executions of scans against Scan. *)
EXTENDS Scan, Json, IOUtils
VARIABLES k, i
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
T(c) == Cases[c].steps
SeenChannel(o, ch) ==
    IF ch.null THEN o.null
    ELSE /\ ~o.null
         /\ o.num = ch.num /\ o.first = ch.first /\ o.nchans = ch.nchans /\ o.nt = ch.nt
         /\ o.md = ch.md /\ o.log = ch.log
         /\ o.full => o.data = ch.contents.data /\ o.mask = ch.contents.mask
Seen(e) ==
    /\ e.exc = res'.exc
    /\ ("ch" \in DOMAIN res') => SeenChannel(e.ch, res'.ch)
    /\ ("cc" \in DOMAIN res') => e.cc = res'.cc
    /\ ("block" \in DOMAIN res') => e.block = res'.block /\ e.marks = res'.marks
    /\ ("info" \in DOMAIN res') => e.info = res'.info
TraceInit == k \in 1..N /\ i = 0 /\ srcs = Cases[k].srcs /\ sc = <<>> /\ res = Ok
TraceNext == /\ i < Len(T(k)) /\ i' = i + 1 /\ k' = k
             /\ LET e == T(k)[i + 1] IN Apply(e.c) /\ Seen(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, k, i>>
At == IOEnv.PROGRESS = "1" => PrintT(<<"AT", k, i>>)
Done == i = Len(T(k)) => PrintT(<<"DONE", k>>)
=============================================================================
