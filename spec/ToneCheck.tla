------------------------------ MODULE ToneCheck ------------------------------
(* Judges what the implementation found in files with tones.                 *)
(* case: p [lo, step, nr, desmear], nt, fine, F (channel width, 1/1000 Hz),  *)
(*   ts (quarters of a second per spectrum), roll (edge channels), zero (1: tones that do not  *)
(*   drift are filtered), one (1: exactly one hit per tone), margin (1: tones *)
(*   near the first and last rate or channel may be missed), scans           *)
(* scan: exc, t, tones [cc, r, c], hits [cc, idx, hz, off, pow, t, rate]     *)
EXTENDS Tone, Json, IOUtils
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
W == 64
If(b, x) == IF b THEN {x} ELSE {}
G(c) == [nt |-> c.nt, nf |-> c.fine, lo |-> c.p.lo, step |-> c.p.step, nr |-> c.p.nr, desmear |-> c.p.desmear]
\* generated cases are within what is claimed
Sound(c, s) == \A i \in 1..Len(s.tones) : LET x == s.tones[i] IN InBand(G(c), x.r, x.c) /\ x.r \in 1..c.p.nr
Edge(c, t, x) == x < c.roll \/ x >= c.fine - c.roll
\* does a tone have band-edge samples on its line?
OnEdge(c, x) == \E b \in Bins(G(c), x.r, x.c) : Edge(c, b[1], b[2])
Kept(c, x) == ~OnEdge(c, x) /\ (c.zero = 0 \/ SpanOf(G(c), x.r) /= 0)
Missable(c, x) == c.margin > 0 /\ (x.r <= c.margin \/ x.r > c.p.nr - c.margin \/ x.c < c.margin \/ x.c >= c.fine - c.margin)
HzOK(c, r, hz) == LET sp == SpanOf(G(c), r) IN Abs(hz * (c.nt - 1) * c.ts - 4000 * sp * c.F) <= (c.nt - 1) * c.ts + 2 + (Abs(sp) * Abs(c.F)) \div 50
Is(c, h, x) == h.cc = x.cc /\ h.idx = x.c /\ h.rate = x.r
\* a hit says where it is in one way
\* (its frequency is in the middle of its width, which for a tone is its channel up to its smearing)
Placed(c, s, h) == /\ h.rate \in 1..c.p.nr /\ HzOK(c, h.rate, h.hz) /\ h.t = s.t
                   /\ h.off >= 1000 * h.cc * c.fine /\ h.off < 1000 * (h.cc + 1) * c.fine
                   /\ \A i \in 1..Len(s.tones) : Is(c, h, s.tones[i]) => Abs(h.off - 1000 * (h.cc * c.fine + h.idx)) <= 1000 * (SmearOf(G(c), h.rate) - 1)
Scan(c, s) ==
    IF s.exc /= "" THEN {"failed: " \o s.exc}
    ELSE IF ~Sound(c, s) THEN {"case"}
    ELSE LET H == {s.hits[i] : i \in 1..Len(s.hits)} X == {s.tones[i] : i \in 1..Len(s.tones)} IN
         IF \E h \in H : ~Placed(c, s, h) THEN {"frequency, drift or time of a hit"}
         ELSE If(\E h \in H : ~\E x \in X : x.cc = h.cc /\ Meet(G(c), h.rate, h.idx, x.r, x.c), "a hit where no tone is")
              \cup If(\E x \in X : Kept(c, x) /\ ~Missable(c, x) /\ ~\E h \in H : Is(c, h, x), "tone not found")
              \cup If(\E x \in X : ~Kept(c, x) /\ \E h \in H : Is(c, h, x), "tone not filtered")
              \cup If(\E h \in H : \E x \in X : Is(c, h, x) /\ (h.pow < 80 \/ h.pow > 112), "power of a tone")
              \cup If(c.one = 1 /\ (Len(s.hits) /= Cardinality({x \in X : Kept(c, x)})), "number of hits")
\* events: one for each signal in two ON scans or more and in no OFF scan, of exactly its hits
Seen(c, g) == {j \in 1..Len(c.scans) : \E i \in 1..Len(c.scans[j].tones) : c.scans[j].tones[i].sig = g}
Expected(c) == {e \in {Seen(c, c.sigs[i]) \X {c.sigs[i]} : i \in 1..Len(c.sigs)} :
                  Cardinality(e) >= 2 /\ \A x \in e : c.scans[x[1]].on = 1}
ToneOf(c, j, g) == LET T == c.scans[j].tones IN T[CHOOSE i \in 1..Len(T) : T[i].sig = g]
Same(c, e, x) == /\ Len(e) = Cardinality(x)
                 /\ \A y \in x : \E i \in 1..Len(e) : e[i].t = c.scans[y[1]].t /\ Is(c, e[i], ToneOf(c, y[1], y[2]))
Events(c) == LET E == Expected(c) IN
             If(Len(c.events) /= Cardinality(E) \/ \E x \in E : ~\E i \in 1..Len(c.events) : Same(c, c.events[i], x), "events")
Verdict(c) == UNION {Scan(c, c.scans[j]) : j \in 1..Len(c.scans)} \cup IF c.cadence = 1 THEN Events(c) ELSE {}
Init == k \in 1..(IF W < N THEN W ELSE N)
Next == k + W <= N /\ k' = k + W
Spec == Init /\ [][Next]_k
Report == LET r == Verdict(Cases[k]) IN
          IF r = {} THEN PrintT(<<"DONE", k>>) ELSE PrintT(<<"BAD", k, r>>)
=============================================================================
