------------------------------- MODULE ScanGen -------------------------------
(* Random behaviours of Scan, printed for replay: the first entry describes  *)
(* the sources, the rest are the calls.  Sources here have no contents.      *)
EXTENDS Scan, Json, Randomization
CONSTANTS Depth, Mode             \* Mode "layout": reads, slices, lookups; "pipeline": transforms; "long": many of them; "python": files only
VARIABLE hist
Fresh(S) == {x \in S : Len(hist) >= 0}
Pick(S) == RandomElement(Fresh(S))
Src(kind, nf, fine, nt, foff, tsamp, num0) ==
    [kind |-> kind, nf |-> nf, fine |-> fine, nt |-> nt, foff |-> foff, tsamp |-> tsamp, num0 |-> num0, md |-> <<>>, smd |-> <<>>,
     data |-> [r \in 1..nt |-> [c \in 1..nf |-> 0]], mask |-> [r \in 1..nt |-> [c \in 1..nf |-> 0]]]
H5s == {Src("h5", nf, 0, nt, foff, ts, 0) : nf \in {8, 12, 15, 24, 40, 96}, nt \in {1, 2, 3, 5, 11}, foff \in {3906250, -3906250, 366210000, -366210000, 2790, -2840},
                                            ts \in {350, 1000000, 18250000}}
Maps == {Src("map", f * n, f, nt, foff, 1000000, num) : f \in {2, 3, 5}, n \in {1, 2, 3, 4}, nt \in {1, 3}, foff \in {3906250, -3906250}, num \in {0, 3, 70}}
Sources == IF Mode /= "python" /\ Pick(1..3) = 1 THEN <<Pick(H5s), Pick(Maps)>> ELSE <<Pick(H5s), Pick(H5s)>>
Tags == {"t1", "t2", "t3", "t4"}
C(op, d, a, n, m) == [op |-> op, d |-> d, a |-> a, n |-> n, m |-> m, l |-> <<>>,
                      t |-> [kind |-> Pick({"mul", "add", "maskadd", "log"}), arg |-> IF Mode = "long" THEN Pick({1, 2}) ELSE Pick({2, 3, 1}), tag |-> Pick(Tags)]]
Weight(op) == IF Mode = "python" THEN op \in {"open", "slice", "slice2", "read", "read2", "read3", "peek", "freq", "info", "block"} \* what Python can call
              ELSE IF Mode = "long" THEN op \in {"open", "handle", "slice", "read", "peek", "tf", "tf2", "tf3", "tf4"}
              ELSE IF Mode = "pipeline" THEN op \notin {"freq", "info", "block", "tf3", "tf4"} ELSE op \notin {"tf2", "tf3", "tf4"}
Ops == {op \in {"open", "handle", "slice", "slice2", "read", "read2", "read3", "peek", "tf", "tf2", "tf3", "tf4", "freq", "info", "block", "device", "push", "drop"} : Weight(op)}
Base(op) == CASE op \in {"read2", "read3"} -> "read" [] op \in {"tf2", "tf3", "tf4"} -> "tf" [] op = "slice2" -> "slice" [] OTHER -> op
Legal(op) ==
    IF Live = {} \/ op = "open"
    THEN LET j == Pick(1..2) IN {C("open", Pick(Names), "", j, IF srcs[j].kind = "map" THEN 0 ELSE Pick({0, 2, 3, 4, 5, 8, 24}))}
    ELSE IF op = "block"
    THEN LET s == srcs[1] r == Pick(0..(s.nt - 1)) c == Pick(0..(s.nf - 1)) all == Pick(1..3) = 1
         IN {[C("block", "", "", 1, 0) EXCEPT !.l = <<r, c, IF all THEN -1 ELSE Pick(1..(s.nt - r)), IF all THEN -1 ELSE Pick(1..(s.nf - c))>>]}
    ELSE LET a == Pick(Live) x == sc[a] IN
         CASE op = "handle" -> {C("handle", Pick(Names), a, 0, 0)}
           [] op = "slice"  -> LET s == Pick(0..(x.n - 1)) IN {C("slice", Pick(Names), a, s, IF Pick(1..4) = 1 THEN -1 ELSE Pick(1..(x.n - s)))}
           [] op \in {"read", "peek"} -> {C(op, "", a, IF Pick(1..8) = 1 THEN Pick({-1, x.n, x.n + 3}) ELSE Pick(0..(x.n - 1)), 0)}
           [] op = "tf"     -> IF Len(x.pipe) < (IF Mode = "long" THEN 13 ELSE 5) THEN {C("tf", "", a, 0, 0)} ELSE {}
           [] op = "freq"   -> {C("freq", "", a, Pick(-5..(x.nch + 4)), 0)}
           [] op = "drop"   -> IF Cardinality(Live) > 1 THEN {C("drop", "", a, 0, 0)} ELSE {}
           [] OTHER -> {C(op, "", a, 0, 0)}
GenInit == srcs = <<>> /\ sc = <<>> /\ res = Ok /\ hist = <<>>
Begin == /\ hist = <<>>
         /\ srcs' = Sources /\ UNCHANGED <<sc, res>>
         /\ hist' = <<[srcs |-> [j \in 1..2 |-> LET s == srcs'[j] IN
                          [kind |-> s.kind, nf |-> s.nf, fine |-> s.fine, nt |-> s.nt, foff |-> s.foff, tsamp |-> s.tsamp, num0 |-> s.num0]]]>>
Step == /\ hist /= <<>>
        /\ \E op \in RandomSubset(5, Fresh(Ops)) : \E c \in Legal(Base(op)) : Apply(c) /\ hist' = Append(hist, c)
        /\ \A a \in DOMAIN sc' : sc'[a].n >= 1
GenSpec == GenInit /\ [][Begin \/ Step]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
