------------------------------- MODULE Passband -------------------------------
(* Normalisation and passband correction of channels, scans, targets and     *)
(* cadences.  Samples are exact fractions <<n, d>> in lowest terms, counted   *)
(* in any unit until they are normalised, and plain numbers from then on.    *)
EXTENDS Levels
VARIABLES srcs,   \* sources: [nt, nf, data, mask], row-major sequences of integers
          hs,     \* passband responses: sequences of fractions, one per fine channel
          ob, res
vars == <<srcs, hs, ob, res>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>
Div(x, y) == Frac(x[1] * y[2], x[2] * y[1])
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Channel(j) == [src |-> j, v |-> [p \in 1..(srcs[j].nt * srcs[j].nf) |-> <<srcs[j].data[p], 1>>], neq |-> 0, norm |-> FALSE]
MaxOf(v) == CHOOSE x \in {v[p] : p \in DOMAIN v} : \A p \in DOMAIN v : ~Less(x, v[p])
Normalize(c) == LET m == MaxOf(c.v) IN [c EXCEPT !.v = [p \in DOMAIN @ |-> Div(@[p], m)], !.norm = TRUE]
Equalize(c, h) == [c EXCEPT !.v = [p \in DOMAIN @ |-> Div(@[p], h[((p - 1) % srcs[c.src].nf) + 1])], !.neq = @ + 1]
Live == DOMAIN ob
Bind(d, o) == ob' = (d :> o) @@ ob /\ res' = [exc |-> ""] /\ UNCHANGED <<srcs, hs>>
Member(o, path) == CASE o.lvl = "c" -> o.x [] o.lvl = "s" -> o.x[path[1]] [] o.lvl = "t" -> o.x[path[1]][path[2]] [] o.lvl = "k" -> o.x[path[1]][path[2]][path[3]]
Apply(c) ==
    CASE c.op = "make"      -> Bind(c.d, Obj("c", Channel(c.n)))
      [] c.op = "handle"    -> c.a \in Live /\ Bind(c.d, ob[c.a])
      [] c.op = "normalize" -> c.a \in Live /\ Bind(c.d, MapObj(Normalize, ob[c.a]))
      [] c.op \in {"equalize", "equalizefile"} -> c.a \in Live /\ Bind(c.d, MapObj(LAMBDA x : Equalize(x, hs[c.n]), ob[c.a]))
      [] c.op = "wrap"      -> /\ c.l /= <<>> /\ \A j \in DOMAIN c.l : c.l[j] \in Live /\ ob[c.l[j]].lvl = ob[c.l[1]].lvl /\ ob[c.l[1]].lvl /= "k"
                               /\ Bind(c.d, Obj(Up(ob[c.l[1]].lvl), [j \in DOMAIN c.l |-> ob[c.l[j]].x]))
      [] c.op = "pick"      -> c.a \in Live /\ ob[c.a].lvl /= "c" /\ c.n \in 1..Len(ob[c.a].x) /\ Bind(c.d, Obj(Down(ob[c.a].lvl), ob[c.a].x[c.n]))
      [] c.op = "get"       -> c.a \in Live /\ res' = [exc |-> "", ch |-> Member(ob[c.a], c.l)] /\ UNCHANGED <<srcs, hs, ob>>
\* ---- what always holds: ratios of samples of one fine channel are those of the source; a normalised channel has maximum one
EveryChannel(P(_)) == \A a \in Live : \A j \in DOMAIN Channels(ob[a]) : P(Channels(ob[a])[j])
SameShape == EveryChannel(LAMBDA c : LET nf == srcs[c.src].nf nt == srcs[c.src].nt IN
    \A f \in 1..nf, t \in 1..nt, u \in 1..nt :
        LET p == (t - 1) * nf + f q == (u - 1) * nf + f
        IN c.v[p][1] * c.v[q][2] * srcs[c.src].data[q] = c.v[q][1] * c.v[p][2] * srcs[c.src].data[p])
Lowest == EveryChannel(LAMBDA c : \A p \in DOMAIN c.v : c.v[p][2] > 0 /\ Gcd(Abs(c.v[p][1]), c.v[p][2]) = 1)
Idempotent == EveryChannel(LAMBDA c : MaxOf(Normalize(c).v) = <<1, 1>> /\ Normalize(Normalize(c)).v = Normalize(c).v)
=============================================================================
