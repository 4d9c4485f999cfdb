------------------------------ MODULE EventsTrace ------------------------------
(* Judges event searches of the implementation: some run of the search must  *)
(* report the recorded events.                                               *)
EXTENDS Events, Json, IOUtils
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Init == /\ k \in 1..N /\ on = Cases[k].on /\ offs = Cases[k].offs
        /\ si = 1 /\ hi = 1 /\ ms = 0 /\ ev = <<>> /\ events = <<>>
RECURSIVE Sum(_, _)
Sum(f(_), q) == IF q = <<>> THEN 0 ELSE f(Head(q)) + Sum(f, Tail(q))
\* averages are recorded in 1/1000
Mean(f(_), unit, e, o) == Abs(o * Len(e) - unit * Sum(f, e)) <= Len(e) + ((unit * Abs(Sum(f, e))) \div 1000000)
Fits(e, o) ==
    /\ Len(o.ids) = Len(e.hits) /\ \A j \in DOMAIN e.hits : e.hits[j].id = o.ids[j]
    /\ o.freq = e.hits[1].f
    /\ o.t0 = Cases[k].scans[e.scan].t /\ o.t1 = Cases[k].scans[e.scan].t + Cases[k].scans[e.scan].u
    /\ Mean(LAMBDA h : h.d, 100, e.hits, o.drift) /\ Mean(LAMBDA h : h.p, 1000, e.hits, o.power)
    /\ Mean(LAMBDA h : h.s, 1000, e.hits, o.snr) /\ Mean(LAMBDA h : h.b, 1000, e.hits, o.bw)
Step == /\ Next /\ k' = k
        /\ Len(events') > Len(events) => Len(events') <= Len(Cases[k].events) /\ Fits(events'[Len(events')], Cases[k].events[Len(events')])
Spec == Init /\ [][Step]_<<vars, k>>
Done == Finished /\ Len(events) = Len(Cases[k].events) /\ Cases[k].exc = "" => PrintT(<<"DONE", k>>)
=============================================================================
