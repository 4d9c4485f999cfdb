------------------------------- MODULE ScanMC -------------------------------
(* Every behaviour of Scan with few scans over a tiny file and an in-memory scan. *)
EXTENDS Scan
CONSTANTS MaxLevel
Src(kind, nf, fine, num0) ==
    [kind |-> kind, nf |-> nf, fine |-> fine, nt |-> 1, foff |-> 1000, tsamp |-> 1000000, num0 |-> num0, md |-> <<>>, smd |-> <<>>,
     data |-> <<[c \in 1..nf |-> c]>>, mask |-> <<[c \in 1..nf |-> 0]>>]
C(op, d, a, n, m, t) == [op |-> op, d |-> d, a |-> a, n |-> n, m |-> m, t |-> t]
Tf(kind, arg) == [kind |-> kind, arg |-> arg, tag |-> kind]
NoTf == Tf("log", 0)
Calls == {C("open", d, "", 1, f, NoTf) : d \in Names, f \in {2, 3}} \cup {C("open", d, "", 2, 0, NoTf) : d \in Names}
         \cup {C("handle", d, a, 0, 0, NoTf) : d \in Names, a \in Names}
         \cup {C("slice", d, a, n, m, NoTf) : d \in Names, a \in Names, n \in {0, 1}, m \in {-1, 1, 2}}
         \cup {C(op, "", a, n, 0, NoTf) : op \in {"read", "peek"}, a \in Names, n \in {-1, 0, 1, 3}}
         \cup {C("freq", "", a, n, 0, NoTf) : a \in Names, n \in {-1, 3}}
         \cup {C("tf", "", a, 0, 0, t) : a \in Names, t \in {Tf("mul", 2), Tf("add", 1)}}
         \cup {C(op, "", a, 0, 0, NoTf) : op \in {"info", "drop"}, a \in Names}
MCInit == srcs = <<Src("h5", 7, 0, 0), Src("map", 4, 2, 5)>> /\ sc = <<>> /\ res = Ok
MCNext == \E c \in Calls : Apply(c)
Depth == TLCGet("level") <= MaxLevel
MCSpec == MCInit /\ [][MCNext]_vars
\* slicing selects: a slice made now shows what the scan shows at the shifted index
SliceSelects == \A a \in Live : \A st \in 0..(sc[a].n - 1) :
    LET x == sc[a] y == [x EXCEPT !.off = @ + st, !.n = @ - st] IN
    \A i \in 0..(y.n - 1) : Channel(y, i) = Channel(x, st + i)
=============================================================================
