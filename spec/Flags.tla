-------------------------------- MODULE Flags --------------------------------
(* Flaggers and noise estimates.  A coarse channel is a spectrogram of       *)
(* integers (fixed, given by its source) with a mask; each flagger adds its  *)
(* own flag value to the samples its rule selects.  Rules are evaluated      *)
(* exactly, in integers; a sample within rounding distance of a limit makes  *)
(* the channel "unknown" from then on: nothing is demanded of it.            *)
EXTENDS Levels, Bitwise
VARIABLES srcs,   \* sources: [nt, nf, n (accumulations per spectrum), data, mask], row-major sequences
          ob,     \* live objects: name -> [lvl, x]
          res     \* what the last call returned
vars == <<srcs, ob, res>>
Rolloff == 1  LowSK == 2  HighSK == 4  Magn == 16  Clip == 32
None == [set |-> FALSE]

\* st: "known", "unknown", or the exception that reading the channel raises
Channel(j) == [src |-> j, mask |-> srcs[j].mask, used |-> {}, noise |-> None, st |-> "known"]
D(c) == srcs[c.src].data
NT(c) == srcs[c.src].nt
NF(c) == srcs[c.src].nf
Size(c) == NT(c) * NF(c)
Col(c, p) == (p - 1) % NF(c)          \* fine channel of sample p (from 1), from 0
Row(c, p) == (p - 1) \div NF(c)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumOver(f) == SumTo(f, Len(f))
Adds(c, flag, S) == [c EXCEPT !.mask = [p \in 1..Size(c) |-> IF p \in S THEN @[p] + flag ELSE @[p]]]
Unknown(c) == [c EXCEPT !.st = "unknown"]

\* ---- band edges: the given fraction (64ths) of the channels at each edge, to the nearest channel
Edge(c, w) == (2 * NF(c) * w + 64) \div 128
DoRolloff(c, w) == Adds(c, Rolloff, {p \in 1..Size(c) : Col(c, p) < Edge(c, w) \/ Col(c, p) >= NF(c) - Edge(c, w)})

\* ---- spectral kurtosis of channel f from M spectra of N accumulations, shape d2/2:
\*      (M N d + 1) / (M - 1) * (M S2 / S1^2 - 1), compared with limits in eighths
S1(c, f) == SumOver([t \in 1..NT(c) |-> D(c)[(t - 1) * NF(c) + f + 1]])
S2(c, f) == SumOver([t \in 1..NT(c) |-> D(c)[(t - 1) * NF(c) + f + 1] * D(c)[(t - 1) * NF(c) + f + 1]])
Num(c, f, d2) == 8 * (NT(c) * srcs[c.src].n * d2 + 2) * (NT(c) * S2(c, f) - S1(c, f) * S1(c, f))
Den(c, f) == 2 * (NT(c) - 1) * S1(c, f) * S1(c, f)
DoSK(c, lo, hi, d2) ==
    LET F == 0..(NF(c) - 1)
        num == [f \in F |-> Num(c, f, d2)]
        den == [f \in F |-> Den(c, f)]
        low == {f \in F : num[f] < lo * den[f]}
        high == {f \in F : num[f] > hi * den[f]}
        close(f, l) == Abs(num[f] - l * den[f]) <= (8 * den[f]) \div 1000 + 1
        valid == {f \in F : den[f] > 0}              \* no power or one spectrum: no estimate, never flagged
    IN IF \E f \in valid : close(f, lo) \/ close(f, hi) THEN Unknown(c)
       ELSE Adds(Adds(c, LowSK, {p \in 1..Size(c) : Col(c, p) \in low \cap valid}), HighSK, {p \in 1..Size(c) : Col(c, p) \in high \cap valid})

\* ---- magnitude: above a limit (in halves), or above mean plus ten deviations
DoMag(c, th) == Adds(c, Magn, {p \in 1..Size(c) : 2 * D(c)[p] > th})
\* does n x - s lie beyond q/4 deviations?  nn is n^2 times the variance
Beyond(dist, q, nn) == dist > 0 /\ 16 * dist * dist > q * q * nn
\* (samples that are all alike have no deviation, and none of them is beyond any limit)
NearLimit(dist, q, nn) == dist >= 0 /\ ~(dist = 0 /\ nn = 0) /\ Abs(16 * dist * dist - q * q * nn) <= (16 * dist * dist) \div 1000 + 1
Stats(c, S) == LET v == [p \in 1..Size(c) |-> IF p \in S THEN D(c)[p] ELSE 0]
                   s == SumOver(v)
               IN [n |-> Cardinality(S), s |-> s, nn |-> Cardinality(S) * SumOver([p \in 1..Size(c) |-> v[p] * v[p]]) - s * s]
All(c) == 1..Size(c)
DoMagAuto(c) ==
    LET st == Stats(c, All(c))
        d(p) == st.n * D(c)[p] - st.s
    IN IF \E p \in All(c) : NearLimit(d(p), 40, st.nn) THEN Unknown(c)
       ELSE Adds(c, Magn, {p \in All(c) : Beyond(d(p), 40, st.nn)})
\* ---- sigma clipping: limits (in quarter deviations) from the samples left by the previous iteration
RECURSIVE ClipSet(_, _, _, _, _)
ClipSet(c, keep, it, lo, hi) ==       \* [kind, set]
    IF it = 0 THEN [kind |-> "ok", set |-> All(c) \ keep]
    ELSE LET st == Stats(c, keep)
             d(p) == st.n * D(c)[p] - st.s
             out == {p \in All(c) : Beyond(d(p), hi, st.nn) \/ Beyond(-d(p), lo, st.nn)}
         IN IF \E p \in All(c) : NearLimit(d(p), hi, st.nn) \/ NearLimit(-d(p), lo, st.nn) THEN [kind |-> "unknown", set |-> {}]
            ELSE IF out = All(c) THEN [kind |-> "runtime_error", set |-> {}]
            ELSE IF All(c) \ out = keep THEN [kind |-> "ok", set |-> out]
            ELSE ClipSet(c, All(c) \ out, it - 1, lo, hi)
DoClip(c, it, lo, hi) ==
    LET r == ClipSet(c, All(c), it, lo, hi)
    IN CASE r.kind = "ok" -> Adds(c, Clip, r.set) [] r.kind = "unknown" -> Unknown(c) [] OTHER -> [c EXCEPT !.st = r.kind]

\* ---- noise: mean and deviation of all samples, or of the unflagged ones
DoNoise(c, masked) ==
    LET S == IF masked = 1 THEN {p \in All(c) : c.mask[p] = 0} ELSE All(c)
    IN IF S = {} THEN [c EXCEPT !.st = "runtime_error"]
       ELSE [c EXCEPT !.noise = [set |-> TRUE, st |-> Stats(c, S)]]

\* ---- calls ----------------------------------------------------------------------
\* a call: [op, d, a, n, m, l, g (parameters)]
Live == DOMAIN ob
FlagOps == {"rolloff", "sk", "mag", "magauto", "sclip"}
KindOf(op) == CASE op \in {"mag", "magauto"} -> "mag" [] OTHER -> op
Run1(op, g, c) ==
    CASE op = "rolloff" -> DoRolloff(c, g[1])
      [] op = "sk"      -> DoSK(c, g[1], g[2], g[3])
      [] op = "mag"     -> DoMag(c, g[1])
      [] op = "magauto" -> DoMagAuto(c)
      [] op = "sclip"   -> DoClip(c, g[1], g[2], g[3])
      [] op = "noise"   -> DoNoise(c, g[1])
OnChannel(op, g, c) ==
    LET r == IF c.st = "known" THEN Run1(op, g, c) ELSE c
    IN IF op = "noise" THEN r ELSE [r EXCEPT !.used = @ \cup {KindOf(op)}]
Bind(d, o) == ob' = (d :> o) @@ ob /\ res' = [exc |-> ""] /\ UNCHANGED srcs
Raise(e) == res' = [exc |-> e] /\ UNCHANGED <<srcs, ob>>
Bad(c) == c.st \notin {"known", "unknown"}
Fits(op, o) == op \in FlagOps => \A j \in DOMAIN Channels(o) : KindOf(op) \notin Channels(o)[j].used
\* the channel reached from an object through member indices
Member(o, path) == CASE o.lvl = "c" -> o.x [] o.lvl = "s" -> o.x[path[1]] [] o.lvl = "t" -> o.x[path[1]][path[2]] [] o.lvl = "k" -> o.x[path[1]][path[2]][path[3]]
Operands(c) == IF c.op = "wrap" THEN {c.l[j] : j \in DOMAIN c.l} ELSE IF c.op = "make" THEN {} ELSE {c.a}
Apply(c) ==
    IF ~(Operands(c) \subseteq Live) THEN Raise("missing") ELSE
    CASE c.op = "make"   -> Bind(c.d, Obj("c", Channel(c.n)))
      [] c.op = "handle" -> Bind(c.d, ob[c.a])
      [] c.op \in FlagOps \cup {"noise"} ->
           /\ Fits(c.op, ob[c.a])
           /\ LET o == MapObj(LAMBDA x : OnChannel(c.op, c.g, x), ob[c.a])
              IN IF o.lvl = "c" /\ Bad(o.x) THEN Raise(o.x.st)          \* a channel is processed at once, the others when read
                 ELSE \/ Bind(c.d, o)
                      \/ o.lvl = "c" /\ o.x.st = "unknown" /\ Raise("runtime_error")
      [] c.op = "wrap"   ->      \* an object of the next level from a sequence of objects of one level
           /\ c.l /= <<>> /\ ob[c.l[1]].lvl /= "k" /\ \A j \in DOMAIN c.l : ob[c.l[j]].lvl = ob[c.l[1]].lvl
           /\ Bind(c.d, Obj(Up(ob[c.l[1]].lvl), [j \in DOMAIN c.l |-> ob[c.l[j]].x]))
      [] c.op = "pick"   ->      \* a member of an object
           /\ ob[c.a].lvl /= "c" /\ c.n \in 1..Len(ob[c.a].x)
           /\ LET x == ob[c.a].x[c.n]
                  o == Obj(Down(ob[c.a].lvl), x)
              IN IF o.lvl = "c" /\ Bad(x) THEN Raise(x.st)
                 ELSE \/ Bind(c.d, o)
                      \/ o.lvl = "c" /\ x.st = "unknown" /\ Raise("runtime_error")
      [] c.op = "get"    -> LET x == Member(ob[c.a], c.l) IN
                            IF Bad(x) THEN Raise(x.st) ELSE res' = [exc |-> "", ch |-> x] /\ UNCHANGED <<srcs, ob>>

\* ---- what always holds ------------------------------------------------------------
\* flags only ever accumulate, and only those of the flaggers that ran
Allowed(c) == (IF "rolloff" \in c.used THEN Rolloff ELSE 0) + (IF "sk" \in c.used THEN LowSK + HighSK ELSE 0)
              + (IF "mag" \in c.used THEN Magn ELSE 0) + (IF "sclip" \in c.used THEN Clip ELSE 0)
EveryChannel(P(_)) == \A a \in Live : \A j \in DOMAIN Channels(ob[a]) : P(Channels(ob[a])[j])
OnlyOwnFlags == EveryChannel(LAMBDA c : \A p \in All(c) : LET added == c.mask[p] - srcs[c.src].mask[p]
                                                        IN added >= 0 /\ (added & Allowed(c)) = added)
\* the kurtosis flags cover whole channels, the edge flags both edges alike
WholeChannels == EveryChannel(LAMBDA c : \A p, q \in All(c) : Col(c, p) = Col(c, q) =>
    (((c.mask[p] - srcs[c.src].mask[p]) & (Rolloff + LowSK + HighSK)) = ((c.mask[q] - srcs[c.src].mask[q]) & (Rolloff + LowSK + HighSK))))
EdgesAlike == EveryChannel(LAMBDA c : \A p, q \in All(c) : Col(c, p) + Col(c, q) = NF(c) - 1 =>
    (((c.mask[p] - srcs[c.src].mask[p]) & Rolloff) = ((c.mask[q] - srcs[c.src].mask[q]) & Rolloff)))
\* a known noise estimate has a non-negative variance
NoiseSane == EveryChannel(LAMBDA c : c.noise.set => c.noise.st.n > 0 /\ c.noise.st.nn >= 0)
=============================================================================
