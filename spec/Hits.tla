--------------------------------- MODULE Hits ---------------------------------
(* Hits of channels, scans, targets and cadences: searching for them, setting *)
(* and filtering them, and listing those of a scan.                          *)
EXTENDS Levels
VARIABLES srcs,   \* sources: [set, list] hits a channel starts with; md: metadata; cands: for every search option its candidates
          ob, res
vars == <<srcs, ob, res>>
Channel(j) == [src |-> j, set |-> srcs[j].set, hits |-> IF srcs[j].set THEN srcs[j].list ELSE <<>>]
\* the hit of candidate x in a channel.  Units: frequencies in 1/1024 MHz, bandwidth in 1/16 Hz, durations in 1/4 s,
\* drift in nHz/s; the ratio snr is <<n, d>> where d is the noise in 1/10000
HitOf(m, x) ==
    [idx |-> x.chan, rate |-> x.rate, freq |-> m.fch1 + m.foff * x.mid, t0 |-> m.t0, dur |-> m.tsamp * m.nt,
     drift |-> m.rates[x.rate + 1], power |-> x.max - m.floor, snr |-> <<x.max - m.floor, x.noise>>, bw |-> 15625 * Abs(m.foff) * x.binw, binw |-> x.binw,
     cc |-> m.num, span |-> m.nt, low |-> x.low, high |-> x.high, roll |-> x.roll]
Search(c, o) == [c EXCEPT !.set = TRUE, !.hits = [j \in DOMAIN srcs[c.src].cands[o] |-> HitOf(srcs[c.src].md, srcs[c.src].cands[o][j])]]
Set(c, j) == [c EXCEPT !.set = TRUE, !.hits = srcs[j].list]
\* interference: band-edge or low kurtosis flags on the line, or, on request, no drift
Keep(h, zero) == h.roll = 0 /\ h.low = 0 /\ (zero = 1 => Abs(h.drift) > 1000)
Filter(c, zero) == [c EXCEPT !.hits = SelectSeq(@, LAMBDA h : Keep(h, zero))]
Live == DOMAIN ob
Bind(d, o) == ob' = (d :> o) @@ ob /\ res' = [exc |-> ""] /\ UNCHANGED srcs
See(x) == res' = [exc |-> "", ch |-> x] /\ UNCHANGED <<srcs, ob>>
AllSet(o) == \A j \in DOMAIN Channels(o) : Channels(o)[j].set
Member(o, path) == CASE o.lvl = "c" -> o.x [] o.lvl = "s" -> o.x[path[1]] [] o.lvl = "t" -> o.x[path[1]][path[2]] [] o.lvl = "k" -> o.x[path[1]][path[2]][path[3]]
Apply(c) ==
    CASE c.op = "make"   -> Bind(c.d, Obj("c", Channel(c.n)))
      [] c.op = "handle" -> c.a \in Live /\ ob[c.a].lvl \in {"c", "s"} /\ Bind(c.d, ob[c.a])
      [] c.op = "search" -> c.a \in Live /\ Bind(c.d, MapObj(LAMBDA x : Search(x, c.n), ob[c.a]))
      [] c.op \in {"set", "setlazy"} -> c.a \in Live /\ ob[c.a].lvl = "c" /\ Bind(c.d, Obj("c", Set(ob[c.a].x, c.n)))
      [] c.op = "filter" -> /\ c.a \in Live
                            /\ IF AllSet(ob[c.a]) THEN Bind(c.d, MapObj(LAMBDA x : Filter(x, c.n), ob[c.a]))
                               ELSE ob[c.a].lvl = "c" /\ res' = [exc |-> "invalid_argument"] /\ UNCHANGED <<srcs, ob>>
      [] c.op = "wrap"   -> /\ c.l /= <<>> /\ \A j \in DOMAIN c.l : c.l[j] \in Live /\ ob[c.l[j]].lvl = ob[c.l[1]].lvl /\ ob[c.l[1]].lvl /= "k"
                            /\ Bind(c.d, Obj(Up(ob[c.l[1]].lvl), [j \in DOMAIN c.l |-> ob[c.l[j]].x]))
      [] c.op = "pick"   -> c.a \in Live /\ ob[c.a].lvl /= "c" /\ c.n \in 1..Len(ob[c.a].x) /\ Bind(c.d, Obj(Down(ob[c.a].lvl), ob[c.a].x[c.n]))
      [] c.op = "get"    -> c.a \in Live /\ See(Member(ob[c.a], c.l))
      \* the hits of a scan are those of its channels, in order
      [] c.op = "list"   -> c.a \in Live /\ ob[c.a].lvl = "s" /\ See([set |-> TRUE, hits |-> Cat([j \in DOMAIN ob[c.a].x |-> ob[c.a].x[j].hits])])
      [] c.op = "filterlist" -> See([set |-> TRUE, hits |-> SelectSeq(srcs[c.n].list, LAMBDA h : Keep(h, c.l[1]))])
      [] c.op = "getlist" -> See([set |-> TRUE, hits |-> srcs[c.n].list])
\* ---- what always holds
EveryChannel(P(_)) == \A a \in Live : \A j \in DOMAIN Channels(ob[a]) : P(Channels(ob[a])[j])
RECURSIVE Within(_, _)
Within(p, q) == IF p = <<>> THEN TRUE ELSE IF q = <<>> THEN FALSE
                ELSE IF Head(p) = Head(q) THEN Within(Tail(p), Tail(q)) ELSE Within(p, Tail(q))
\* filtering keeps a subsequence, is idempotent, and the options commute
FilterLaws == EveryChannel(LAMBDA c : \A z \in {0, 1} :
    /\ Within(Filter(c, z).hits, c.hits) /\ Filter(Filter(c, z), z) = Filter(c, z)
    /\ Filter(Filter(c, 0), 1) = Filter(c, 1) /\ Filter(Filter(c, 1), 0) = Filter(c, 1))
Unset == EveryChannel(LAMBDA c : ~c.set => c.hits = <<>>)
=============================================================================
