----------------------------- MODULE CadenceTrace -----------------------------
(* Checks recorded executions of targets and cadences against Cadence. *)
EXTENDS Cadence, Json, IOUtils
VARIABLES k, i
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
T(c) == Cases[c].steps
SeenChannel(o, ch) ==
    /\ ~o.null /\ o.num = ch.num /\ o.first = ch.first /\ o.nchans = ch.nchans /\ o.nt = ch.nt /\ o.md = ch.md /\ o.log = ch.log
    /\ o.data = ch.contents.data /\ o.mask = ch.contents.mask
Seen(e) ==
    /\ e.exc = res'.exc
    /\ ("ch" \in DOMAIN res') => SeenChannel(e.ch, res'.ch)
    /\ ("info" \in DOMAIN res') => e.info = res'.info
    /\ ("v" \in DOMAIN res') => e.v = res'.v
TraceInit == k \in 1..N /\ i = 0 /\ srcs = Cases[k].srcs /\ sc = <<>> /\ res = Ok /\ tg = <<>> /\ ks = <<>>
TraceNext == /\ i < Len(T(k)) /\ i' = i + 1 /\ k' = k
             /\ LET e == T(k)[i + 1] IN ApplyC(e.c) /\ Seen(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, k, i>>
At == IOEnv.PROGRESS = "1" => PrintT(<<"AT", k, i>>)
Done == i = Len(T(k)) => PrintT(<<"DONE", k>>)
=============================================================================
