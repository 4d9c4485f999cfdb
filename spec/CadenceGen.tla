------------------------------ MODULE CadenceGen ------------------------------
(* Random behaviours of Cadence, printed for replay. *)
EXTENDS Cadence, Json, Randomization
CONSTANTS Depth, TNames, KNames,
          Plain                   \* only files, and only what can be called from Python
VARIABLE hist
Fresh(S) == {x \in S : Len(hist) >= 0}
Pick(S) == RandomElement(Fresh(S))
Src(nf, nt, base, w, name, kind) ==
    [kind |-> kind, nf |-> nf, fine |-> 4, nt |-> nt, foff |-> w * 100, tsamp |-> 1000000, num0 |-> 0, md |-> <<>>, smd |-> <<>>,
     data |-> [r \in 1..nt |-> [c \in 1..nf |-> 0]], mask |-> [r \in 1..nt |-> [c \in 1..nf |-> 0]], base |-> base, w |-> w, name |-> name]
NSrc == 6
\* most sources agree; the others differ in one respect
Base == 1000000000
One(w, kind, odd) == Src(IF odd = 1 THEN 16 ELSE 12, Pick({1, 2}), Base + (CASE odd = 2 -> 5 [] odd = 3 -> 20 [] odd = 4 -> -40000 [] OTHER -> 0),
                   w + (CASE odd = 5 -> 3 [] odd = 6 -> 20 [] odd = 7 -> -20 [] odd = 8 -> -2 * w [] OTHER -> 0), Pick({"A", "A", "B", "C"}), kind)
Sources == LET w == Pick({40000, -40000, 80000}) IN [j \in 1..NSrc |-> One(w, IF ~Plain /\ Pick(1..4) = 1 THEN "map" ELSE "h5", IF Pick(1..4) = 1 THEN Pick(1..8) ELSE 0)]
C(op, d, a, n, m, l) == [op |-> op, d |-> d, a |-> a, n |-> n, m |-> m, l |-> l,
                         t |-> [kind |-> Pick({"mul", "add", "maskadd"}), arg |-> Pick({2, 3, 1}), tag |-> Pick({"t1", "t2"})]]
RandSeq(S, n) == [j \in 1..n |-> Pick(S)]
Ops == {"open", "open2", "slice", "tf", "read", "info", "target", "target2", "cadence", "tslice", "kslice", "tvalid", "kvalid", "tncoarse", "kncoarse",
        "tfreq", "kfreq", "tname", "kcount", "tscan", "ktarget"} \ (IF Plain THEN {"tf"} ELSE {})
NBase(op) == CASE op = "open2" -> "open" [] op = "target2" -> "target" [] OTHER -> op
Legal(op) ==
    IF Live = {} \/ op = "open"
    THEN LET j == Pick(1..NSrc) IN {C("open", Pick(Names), "", j, IF srcs[j].kind = "map" THEN 0 ELSE Pick({4, 4, 4, 2, 3}), <<>>)}
    ELSE IF op \in ScanOps
    THEN LET a == Pick(Live) x == sc[a] IN
         CASE op = "slice" -> LET s == Pick(0..(x.n - 1)) IN {C("slice", Pick(Names), a, s, Pick(1..(x.n - s)), <<>>)}
           [] op = "read"  -> {C(op, "", a, Pick(0..(x.n - 1)), 0, <<>>)}
           [] op = "tf"    -> IF Len(x.pipe) < 3 THEN {C("tf", "", a, 0, 0, <<>>)} ELSE {}
           [] OTHER        -> {C(op, "", a, 0, 0, <<>>)}
    ELSE IF op = "target" THEN {C(op, Pick(TNames), "", 0, 0, RandSeq(Live, Pick({1, 2, 2, 3, 3, 4} \cup {0})))}
    ELSE IF op = "cadence" THEN IF tg = <<>> THEN {} ELSE {C(op, Pick(KNames), "", 0, 0, RandSeq(DOMAIN tg, Pick(1..3)))}
    ELSE IF op \in {"tslice", "tvalid", "tncoarse", "tfreq", "tname", "tscan"}
    THEN IF tg = <<>> THEN {}
         ELSE LET a == Pick(DOMAIN tg) IN
              IF op = "tscan" THEN IF tg[a].scans = <<>> THEN {} ELSE {C(op, Pick(Names), a, Pick(0..(Len(tg[a].scans) - 1)), 0, <<>>)}
              ELSE IF op = "tslice" THEN LET s == Pick(0..2) IN {C(op, Pick(TNames), a, s, Pick({-1, 1, 2}), <<>>)}
              ELSE {C(op, "", a, IF op = "tfreq" THEN Pick(-4..14) ELSE 0, 0, <<>>)}
    ELSE IF ks = <<>> THEN {}
         ELSE LET a == Pick(DOMAIN ks) IN
              IF op = "ktarget" THEN {C(op, Pick(TNames), a, Pick(0..(Len(ks[a]) - 1)), 0, <<>>)}
              ELSE IF op = "kslice" THEN {C(op, Pick(KNames), a, Pick(0..2), Pick({-1, 1, 2}), <<>>)}
              ELSE {C(op, "", a, IF op = "kfreq" THEN Pick(-4..14) ELSE 0, 0, <<>>)}
GenInit == srcs = <<>> /\ sc = <<>> /\ res = Ok /\ tg = <<>> /\ ks = <<>> /\ hist = <<>>
Begin == /\ hist = <<>>
         /\ srcs' = Sources /\ UNCHANGED <<sc, res, tg, ks>>
         /\ hist' = <<[srcs |-> [j \in 1..NSrc |-> LET s == srcs'[j] IN
                          [kind |-> s.kind, nf |-> s.nf, fine |-> s.fine, nt |-> s.nt, foff |-> s.foff, tsamp |-> s.tsamp, num0 |-> s.num0,
                           base |-> s.base, w |-> s.w, name |-> s.name]]]>>
\* begin with scans in hand
Step == /\ hist /= <<>>
        /\ \E op \in IF Len(hist) < 4 THEN {"open"} ELSE RandomSubset(5, Fresh(Ops)) : \E c \in Legal(NBase(op)) : ApplyC(c) /\ hist' = Append(hist, c)
GenSpec == GenInit /\ [][Begin \/ Step]_<<cvars, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
