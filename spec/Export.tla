-------------------------------- MODULE Export --------------------------------
(* What leaves the system: text exports of hits, the formats of result files,  *)
(* and what the programs bliss_find_hits and bliss_hits_to_dat do.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
\* ---- formats
WriteFormat(fmt, path) == IF fmt \in {"dat", "capnp"} THEN fmt
                          ELSE IF fmt = "" /\ EndsWith(path, ".dat") THEN "dat" ELSE "capnp"
ReadOutcome(fmt) == IF fmt \in {"", "capnp"} THEN "" ELSE IF fmt \in {"dat", "turboseti"} THEN "runtime_error" ELSE "invalid_argument"
\* ---- the text export of a scan
Zeros == "000000"
Pad(n) == LET s == ToString(n) IN IF Len(s) >= 6 THEN s ELSE SubSeq(Zeros, 1, 6 - Len(s)) \o s
\* the row of the n-th hit.  Frequencies in 1e-6 MHz, drift in 1e-6 Hz/s or as U, ratio in 1e-6, durations in 1/4 s
Near(a, b, tol) == Abs(a - b) <= tol
\* h.bd is the drift in 1/u Hz/s; the end frequency is in Hz, which is 1e-6 MHz
EndFreq(h, u) == h.freq + ((h.dur * h.bd) \div (4 * u))
RowOK(n, h, u, r) ==
    /\ r.n = Pad(n) /\ r.idx = h.idx /\ r.cc = h.cc /\ r.binw = h.binw
    /\ Near(r.drift, h.drift, h.tol) /\ Near(r.snr, h.snr, h.tol) /\ Near(r.start, h.freq, h.tol)
    /\ Near(r.end, EndFreq(h, u), h.tol + 1) /\ Near(2 * r.mid, h.freq + EndFreq(h, u), 2 * h.tol + 4) /\ r.mid2 = r.mid
    /\ r.sefd = 0 /\ r.sefdf = 0
RowsOK(hs, u, rs) == Len(rs) = Len(hs) /\ \A j \in DOMAIN hs : RowOK(j, hs[j], u, rs[j])
Rule == "# -------------------------- o --------------------------"
Dash == "# --------------------------"
Columns == "# Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits"
\* angles h:m:s (s in 1/1000) and sign d:m:s (s in 1/100); a.s may be a whole minute after rounding
Angle(a, per) == (a.h * 60 + a.m) * 60 * per + a.s
AngleOK(a, per) == a.m \in 0..59 /\ a.s \in 0..(60 * per)
HeaderOK(m, h) ==
    /\ h.l1 = Rule /\ h.l3 = Rule /\ h.l7 = Dash /\ h.l9 = Dash /\ h.l8 = Columns
    /\ h.file = m.file /\ h.src = m.src /\ h.mjd = m.tstart /\ h.rate = "n/a"
    /\ AngleOK(h.ra, 1000) /\ Near(Angle(h.ra, 1000), m.raj, 1)
    /\ AngleOK(h.dec, 100) /\ Near(Angle(h.dec, 100), Abs(m.dej), 1) /\ h.sign = (IF m.dej < 0 THEN "-" ELSE "+")
    /\ Near(h.dt, m.tsamp, 1) /\ Near(h.df, m.foff, 1) /\ Near(h.len, m.tsamp * m.nt, 1)
\* ---- bliss_find_hits: options are numbers in 1/100, absent ones have the default
Default == [c |-> 0, number |-> 1, fine |-> 0, taps |-> FALSE, desmear |-> TRUE, lo |-> -500, hi |-> 500, step |-> 1, rolloff |-> 25,
            iters |-> 5, siglo |-> 300, sighi |-> 400, sklo |-> 25, skhi |-> 5000, skd |-> 200, method |-> "cc", snr |-> 1000, dist |-> 7,
            out |-> "", form |-> ""]
Options == DOMAIN Default
Full(o) == o @@ Default
Stage(op, a) == [op |-> op, a |-> a]
Stages(p) ==
    LET o == Full(p) IN
    <<Stage("open", <<o.fine>>), Stage("slice", <<o.c, o.number>>), Stage("normalize", <<>>),
      IF o.taps THEN Stage("equalizefile", <<>>) ELSE Stage("rolloff", <<o.rolloff>>),
      Stage("sk", <<o.sklo, o.skhi, o.skd>>), Stage("sclip", <<o.iters, o.siglo, o.sighi>>), Stage("noise", <<1>>),
      Stage("dedrift", <<IF o.desmear THEN 1 ELSE 0, o.lo, o.hi, o.step>>), Stage(IF o.method = "cc" THEN "hitscc" ELSE "hitslm", <<o.snr, o.dist>>),
      Stage("filter", <<1>>)>>
\* where the hits of each file go: names are [stem, ext]
Output(p, name) == LET o == Full(p) IN
    IF o.out = "" THEN [place |-> name.stem \o ".capnp", form |-> "capnp"]
    ELSE IF o.out \in {"-", "stdout"} THEN [place |-> "-", form |-> "print"]
    ELSE [place |-> o.out, form |-> WriteFormat(o.form, o.out)]
Outputs(p, names) == [j \in DOMAIN names |-> Output(p, names[j])]
\* ---- bliss_hits_to_dat
ConvertedTo(out, stem) == IF out = "" THEN [place |-> stem \o ".dat", form |-> "dat"] ELSE IF out \in {"-", "stdout"} THEN [place |-> "-", form |-> "print"]
                          ELSE [place |-> out, form |-> "dat"]
\* the printed line of a hit: frequency in 1e-6 MHz, drift and ratio in 1e-6, bandwidth in 1/10
PrintOK(h, r) == /\ r.idx = h.idx /\ r.rate = h.rate /\ Near(r.freq, h.freq, h.tol) /\ Near(r.drift, h.drift, h.tol) /\ Near(r.snr, h.snr, h.tol)
                 /\ Near(r.power, h.power, 1) /\ Near(r.bw, h.bw, 1)
=============================================================================
