----------------------------- MODULE ViewsTrace -----------------------------
(* Checks recorded executions of the array library against Views.  After     *)
(* every call every live handle was read back: shape, type and values.       *)
EXTENDS Views, Json, IOUtils
VARIABLES k, i
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
T(c) == Cases[c].steps
Seen(obs) ==                                   \* the recorded state of the implementation
    /\ Len(obs) = Cardinality(DOMAIN hs')
    /\ \A j \in 1..Len(obs) : LET o == obs[j] IN
          /\ o.h \in DOMAIN hs'
          /\ o.shape = hs'[o.h].shape
          /\ o.dt = bufs'[hs'[o.h].b].dt
          /\ o.size = o.shape /\ o.numel = Numel(o.shape)
          /\ LET vals == [n \in 1..Len(hs'[o.h].pos) |-> bufs'[hs'[o.h].b].e[hs'[o.h].pos[n]]]
             IN /\ o.v = vals
                \* element by element; a one-element array also reads as a scalar, larger ones refuse to
                /\ o.at = IF Len(vals) = 1 THEN vals \o vals ELSE vals
                /\ o.refused = (Len(vals) > 1)
\* what another library reads from an array handed to it
Told(v, got) == got = [shape |-> v.shape, v |-> Values(v)]
\* and from everything it still holds
SeenLent(ls) == ls = [n \in DOMAIN lent' |-> IF lent'[n].on THEN [shape |-> lent'[n].v.shape, v |-> [m \in 1..Len(lent'[n].v.pos) |-> bufs'[lent'[n].v.b].e[lent'[n].v.pos[m]]]]
                                          ELSE [shape |-> <<>>, v |-> <<>>]]
TraceInit == Init /\ k \in 1..N /\ i = 0
TraceNext == /\ i < Len(T(k))
             /\ i' = i + 1 /\ k' = k
             /\ LET e == T(k)[i + 1] IN Apply(e.c) /\ e.exc = res' /\ Seen(e.obs) /\ SeenLent(e.lent)
                /\ (e.c.op = "share" => Told(hs[e.c.a], e.got))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, k, i>>
At == IOEnv.PROGRESS = "1" => PrintT(<<"AT", k, i>>)
Done == i = Len(T(k)) => PrintT(<<"DONE", k>>)
=============================================================================
