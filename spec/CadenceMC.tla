------------------------------ MODULE CadenceMC ------------------------------
(* Every behaviour of Cadence with few scans, targets and cadences. *)
EXTENDS Cadence
CONSTANTS MaxLevel, TNames, KNames
Src(nf, base, w, name) ==
    [kind |-> "h5", nf |-> nf, fine |-> 0, nt |-> 1, foff |-> 1000, tsamp |-> 1000000, num0 |-> 0, md |-> <<>>, smd |-> <<>>,
     data |-> <<[c \in 1..nf |-> c]>>, mask |-> <<[c \in 1..nf |-> 0]>>, base |-> base, w |-> w, name |-> name]
C(op, d, a, n, m, l) == [op |-> op, d |-> d, a |-> a, n |-> n, m |-> m, l |-> l, t |-> [kind |-> "log", arg |-> 0, tag |-> "t"]]
Pairs(S) == {<<a>> : a \in S} \cup {<<a, b>> : a \in S, b \in S}
Calls == {C("open", d, "", j, 2, <<>>) : d \in Names, j \in 1..3}
         \cup {C("slice", d, a, 1, -1, <<>>) : d \in Names, a \in Names}
         \cup {C("tf", "", a, 0, 0, <<>>) : a \in Names}
         \cup {C("target", d, "", 0, 0, l) : d \in TNames, l \in Pairs(Names)}
         \cup {C("cadence", d, "", 0, 0, l) : d \in KNames, l \in Pairs(TNames)}
         \cup {C("tslice", d, a, n, 1, <<>>) : d \in TNames, a \in TNames, n \in 0..1}
         \cup {C("kslice", d, a, n, -1, <<>>) : d \in KNames, a \in KNames, n \in 0..1}
         \cup {C(op, "", a, 0, 0, <<>>) : op \in {"tvalid", "tncoarse", "tname"}, a \in TNames}
         \cup {C(op, "", a, 0, 0, <<>>) : op \in {"kvalid", "kncoarse", "kcount"}, a \in KNames \cap DOMAIN ks}
         \cup {C("tscan", d, a, 0, 0, <<>>) : d \in Names, a \in TNames} \cup {C("ktarget", d, a, 0, 0, <<>>) : d \in TNames, a \in KNames}
MCInit == srcs = <<Src(6, 1000, 400, "A"), Src(6, 1005, 400, "A"), Src(4, 1400, 800, "B")>> /\ sc = <<>> /\ res = Ok /\ tg = <<>> /\ ks = <<>>
MCNext == \E c \in Calls : ApplyC(c)
Depth == TLCGet("level") <= MaxLevel
MCSpec == MCInit /\ [][MCNext]_cvars
=============================================================================
