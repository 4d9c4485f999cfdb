-------------------------------- MODULE Tone --------------------------------
(* From spectrogram to hits and events: what becomes of tones of constant    *)
(* power that drift at a searched rate over a quiet background.  Composed of *)
(* the drift plane (Drift) and the searches in it (Search).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL D == INSTANCE Drift
LOCAL S == INSTANCE Search
Abs(x) == IF x < 0 THEN -x ELSE x
\* rates: [nt, nf, lo, step, nr, desmear]; row from 1, channel from 0
SpanOf(g, r) == D!Span(g.lo, g.step, r)
SmearOf(g, r) == D!Smear(g.nt, SpanOf(g, r), g.desmear)
\* the channels of the line of row r from channel c at spectrum t
Low(g, r, c, t, down) == LET sp == SpanOf(g, r) x == D!At(g.nt, sp, c, t, 0, down) IN IF sp >= 0 THEN x ELSE x - SmearOf(g, r) + 1
High(g, r, c, t, down) == Low(g, r, c, t, down) + SmearOf(g, r) - 1
Bins(g, r, c) == UNION {{<<t, x>> : x \in Low(g, r, c, t, {})..High(g, r, c, t, {})} : t \in 0..(g.nt - 1)}
InBand(g, r, c) == \A t \in 0..(g.nt - 1) : Low(g, r, c, t, {}) >= 0 /\ High(g, r, c, t, {}) < g.nf
\* two lines meet, whichever channels are taken at ties
Meet(g, r, c, r2, c2) == \E t \in 0..(g.nt - 1) :
    \E d \in {{}, {t} \cap D!Ambiguous(g.nt, SpanOf(g, r))}, e \in {{}, {t} \cap D!Ambiguous(g.nt, SpanOf(g, r2))} :
        Low(g, r, c, t, d) <= High(g, r2, c2, t, e) /\ Low(g, r2, c2, t, e) <= High(g, r, c, t, d)
----------------------------------------------------------------------------
(* The search of a plane made from tones of power 1 over a floor of 0, noise *)
(* 1/4 of `noise`; powers in units of 1/L                                    *)
Samples(g, r) == g.nt * SmearOf(g, r)
Unit(g) == g.nt * 12                    \* for lines smeared over at most four channels
Signal(tones) == UNION {Bins(tones[k].g, tones[k].r, tones[k].c) : k \in DOMAIN tones}
PlaneOf(g, signal, noise, reach) ==
    [nr |-> g.nr, nf |-> g.nf, floor |-> 0, power |-> noise, thr |-> 1, d |-> reach, n |-> [r \in 1..g.nr |-> Samples(g, r)],
     v |-> [r \in 1..g.nr |-> [f \in 1..g.nf |->
        (Unit(g) \div (SmearOf(g, r) * g.nt))
          * D!LineTotal(LAMBDA t, x : IF <<t, x>> \in signal THEN 1 ELSE 0, g.nt, g.nf, SpanOf(g, r), SmearOf(g, r), f - 1, {})]]]
Candidates(p) == S!Components(p)
Strongest(p, group) == {c \in group : \A b \in group : S!Ratio(p, b) <= S!Ratio(p, c)}
IsPeak(p, c) == S!Peak(p, c)
Audible(p, c) == S!Exceeds(p, c, 1, 1)
Loud(p) == \A c \in S!Cells(p) : p.v[c[1]][c[2]] > 0 => S!Exceeds(p, c, 1, 2)
HoodInside(p, c) == S!Hood(p, c) \subseteq S!Cells(p)
=============================================================================
