-------------------------------- MODULE Scan --------------------------------
(* Scans over filterbank files (or over coarse channels in memory).  A       *)
(* source is a band of fine channels with data, mask and metadata; a scan is *)
(* a window of whole coarse channels of a source together with an ordered    *)
(* list of transforms.  Reading a coarse channel yields that block of the    *)
(* source's original contents with the scan's transforms applied.            *)
(* Frequencies are counted in fine channels from the source's first channel. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Names
VARIABLES srcs,                   \* the sources (never change)
          sc,                     \* scans: name -> [src, fine, off, n, nch, pipe, seen]
          res                     \* outcome of the last call
vars == <<srcs, sc, res>>

Max2(a, b) == IF a >= b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---- channelization --------------------------------------------------------
\* fine channels per coarse channel, channel width in mHz, time step in microseconds
Known == << <<1033216, 2840, 17980000>>, <<8, 366210000, 350>>, <<1024, 2860000, 1060000>>,
            <<999424, 2930, 17400000>>, <<8, 366210000, 350>>, <<1024, 2860000, 1020000>>,
            <<1048576, 2790, 18250000>>, <<8, 366210000, 350>>, <<1024, 2860000, 1070000>> >>
Matches(nf, foff, tsamp, e) ==
    nf % e[1] = 0 /\ Abs(Abs(foff) - e[2]) < 100 /\ Abs(tsamp - e[3]) < 100000
\* a common size, stretched so that the coarse channels cover the band exactly: 0 if that is impossible
Stretched(nf, size) ==
    LET n == Max2(nf \div size, 1)
        f == size + (nf % size) \div n
    IN IF n * f = nf THEN f ELSE 0
Infer(nf, foff, tsamp) ==
    LET m == {j \in 1..Len(Known) : Matches(nf, foff, tsamp, Known[j])}
    IN IF m /= {} THEN Known[CHOOSE j \in m : \A l \in m : j <= l][1]
       ELSE IF Stretched(nf, 262144) /= 0 THEN Stretched(nf, 262144)
       ELSE IF Stretched(nf, 1000000) /= 0 THEN Stretched(nf, 1000000)
       ELSE nf

\* ---- what a coarse channel holds -------------------------------------------
ApplyOne(t, x) == CASE t.kind = "mul" -> [x EXCEPT !.data = [r \in DOMAIN @ |-> [c \in DOMAIN @[r] |-> @[r][c] * t.arg]]]
                    [] t.kind = "add" -> [x EXCEPT !.data = [r \in DOMAIN @ |-> [c \in DOMAIN @[r] |-> @[r][c] + t.arg]]]
                    [] t.kind = "maskadd" -> [x EXCEPT !.mask = [r \in DOMAIN @ |-> [c \in DOMAIN @[r] |-> @[r][c] + t.arg]]]
                    [] t.kind = "log" -> x
RECURSIVE Through(_, _)
Through(pipe, x) == IF pipe = <<>> THEN x ELSE Through(Tail(pipe), ApplyOne(Head(pipe), x))
Block(rows, from, n) == [r \in 1..Len(rows) |-> SubSeq(rows[r], from + 1, from + n)]
\* channel i (from 0) of the whole source, as the source has it
Original(s, fine, i) == [data |-> Block(s.data, i * fine, fine), mask |-> Block(s.mask, i * fine, fine)]
Contents(x, i) == LET s == srcs[x.src] IN Through(x.pipe, Original(s, x.fine, x.off + i))
Log(x, i) == [j \in 1..Len(x.pipe) |-> <<x.pipe[j].tag, srcs[x.src].num0 + x.off + i>>]
\* position (in fine channels of the source) of the first channel of coarse channel i, and of the scan
FirstOf(x, i) == (x.off + i) * x.fine

Channel(x, i) == [null |-> FALSE, num |-> srcs[x.src].num0 + x.off + i, first |-> FirstOf(x, i), nchans |-> x.fine,
                  nt |-> srcs[x.src].nt, contents |-> Contents(x, i), log |-> Log(x, i), md |-> srcs[x.src].md]
Null == [null |-> TRUE]

\* ---- calls -------------------------------------------------------------------
Ok == [exc |-> ""]
Bind(d, x) == sc' = (d :> x) @@ sc /\ res' = Ok /\ UNCHANGED srcs
Fails(e) == res' = [exc |-> e] /\ UNCHANGED <<srcs, sc>>

Open(d, j, fine) ==
    LET s == srcs[j]
        f == IF s.kind = "map" THEN s.fine ELSE IF fine /= 0 THEN fine ELSE Infer(s.nf, s.foff, s.tsamp)
    IN Bind(d, [src |-> j, fine |-> f, off |-> 0, n |-> s.nf \div f, nch |-> s.nf, pipe |-> <<>>,
                seen |-> IF s.kind = "map" THEN 0..(s.nf \div f - 1) ELSE {}])
Handle(d, a) == Bind(d, sc[a])
Slice(d, a, start, count) ==
    LET x == sc[a] n == IF count = -1 THEN x.n - start ELSE count
    IN Bind(d, [x EXCEPT !.off = @ + start, !.n = n, !.nch = n * x.fine])
Transform(a, t) == sc' = [sc EXCEPT ![a].pipe = Append(@, t)] /\ res' = Ok /\ UNCHANGED srcs
Read(a, i) ==
    IF i < 0 \/ i >= sc[a].n THEN Fails("out_of_range")
    ELSE /\ res' = [exc |-> "", ch |-> Channel(sc[a], i)]
         /\ sc' = [sc EXCEPT ![a].seen = @ \cup {sc[a].off + i}] /\ UNCHANGED srcs
\* looking at a channel without reading it gives the channel if this scan has read it (or was copied from one
\* that had); it may also do so if another scan over the same source has read it
Peek(a, i) ==
    IF i < 0 \/ i >= sc[a].n THEN Fails("out_of_range")
    ELSE LET g == sc[a].off + i IN
         /\ UNCHANGED <<srcs, sc>>
         /\ \/ res' = [exc |-> "", ch |-> Channel(sc[a], i)] /\ \E b \in DOMAIN sc : sc[b].src = sc[a].src /\ g \in sc[b].seen
            \/ res' = [exc |-> "", ch |-> Null] /\ g \notin sc[a].seen
\* coarse channel of the frequency half a fine channel above fine channel c of the scan
Lookup(x, c) == c \div x.fine
Freq(a, c) == res' = [exc |-> "", cc |-> Lookup(sc[a], c)] /\ UNCHANGED <<srcs, sc>>
Info(a) == LET x == sc[a] IN
           /\ res' = [exc |-> "", info |-> [first |-> FirstOf(x, 0), ncoarse |-> x.n, nchans |-> x.nch, nt |-> srcs[x.src].nt,
                                            md |-> srcs[x.src].md, smd |-> srcs[x.src].smd]]
           /\ UNCHANGED <<srcs, sc>>
\* a rectangle of a file: from row l[1], channel l[2], as many as l[3], l[4] say, or (when these are -1) all the rest
Rest(n, from, count) == IF count = -1 THEN n - from ELSE count
ReadBlock(j, l) ==
    LET s == srcs[j]
        rows(x) == [r \in 1..Rest(s.nt, l[1], l[3]) |-> SubSeq(x[l[1] + r], l[2] + 1, l[2] + Rest(s.nf, l[2], l[4]))]
    IN res' = [exc |-> "", block |-> rows(s.data), marks |-> rows(s.mask)] /\ UNCHANGED <<srcs, sc>>
Nothing(a) == res' = Ok /\ UNCHANGED <<srcs, sc>>       \* sending a scan to the device it is on
Drop(a) == sc' = [h \in DOMAIN sc \ {a} |-> sc[h]] /\ res' = Ok /\ UNCHANGED srcs

Live == DOMAIN sc
Apply(c) ==
    CASE c.op = "open"   -> Open(c.d, c.n, c.m)
      [] c.op = "handle" -> c.a \in Live /\ Handle(c.d, c.a)
      [] c.op = "slice"  -> /\ c.a \in Live /\ c.n \in 0..(sc[c.a].n - 1)
                            /\ (c.m = -1 \/ (c.m >= 1 /\ c.n + c.m <= sc[c.a].n)) /\ Slice(c.d, c.a, c.n, c.m)
      [] c.op = "read"   -> c.a \in Live /\ Read(c.a, c.n)
      [] c.op = "peek"   -> c.a \in Live /\ Peek(c.a, c.n)
      [] c.op = "tf"     -> c.a \in Live /\ Transform(c.a, c.t)
      [] c.op = "freq"   -> c.a \in Live /\ Freq(c.a, c.n)
      [] c.op = "info"   -> c.a \in Live /\ Info(c.a)
      [] c.op \in {"device", "push"} -> c.a \in Live /\ Nothing(c.a)
      [] c.op = "block"  -> srcs[c.n].kind = "h5" /\ ReadBlock(c.n, c.l)
      [] c.op = "drop"   -> c.a \in Live /\ Drop(c.a)

\* ---- what always holds ---------------------------------------------------------
Inside == \A a \in Live : LET x == sc[a] IN
    x.off >= 0 /\ x.n >= 0 /\ (x.off + x.n) * x.fine <= srcs[x.src].nf
\* the coarse channels of a scan are consecutive blocks that do not overlap, and the lookup inverts the layout
Some(n) == IF n <= 8 THEN 0..(n - 1) ELSE {0, 1, n \div 2, n - 2, n - 1}
Partition == \A a \in Live : LET x == sc[a] IN
    \A i \in Some(x.n) : /\ FirstOf(x, i) = FirstOf(x, 0) + i * x.fine
                         /\ \A c \in Some(x.fine) : Lookup(x, FirstOf(x, i) - FirstOf(x, 0) + c) = i
\* reading is independent of history: what any scan yields for a channel is a function of its own window and transforms
\* and changes only if it is itself given a transform or replaced
Isolation == [][\A a \in Live \cap DOMAIN sc' : sc'[a] /= sc[a] =>
                   \/ sc'[a].pipe = sc[a].pipe /\ sc'[a].n = sc[a].n /\ sc'[a].off = sc[a].off        \* read it
                   \/ \A b \in (Live \cap DOMAIN sc') \ {a} : sc'[b] = sc[b]]_vars
SourcesFixed == [][srcs' = srcs]_vars
=============================================================================
