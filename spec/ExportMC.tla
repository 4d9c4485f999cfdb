------------------------------- MODULE ExportMC -------------------------------
(* Every option of bliss_find_hits does one thing: changing it changes one    *)
(* stage or the outputs, and no other option can undo that, except that a     *)
(* given response replaces the flagging of the band edges.                    *)
EXTENDS Export
CONSTANTS MaxOptions
VARIABLE o
Values == [c |-> {0, 2}, number |-> {1, 3}, fine |-> {0, 16}, taps |-> {TRUE}, desmear |-> {TRUE, FALSE}, lo |-> {-8}, hi |-> {8}, step |-> {2}, rolloff |-> {0, 10},
           iters |-> {1}, siglo |-> {200}, sighi |-> {500}, sklo |-> {50}, skhi |-> {300}, skd |-> {100}, method |-> {"cc", "lm"}, snr |-> {500}, dist |-> {1},
           out |-> {"-", "x.dat", "y"}, form |-> {"dat", "capnp", "odd"}]
Init == o = <<>>
Next == \E n \in Options \ DOMAIN o : \E v \in Values[n] : o' = (n :> v) @@ o
Spec == Init /\ [][Next]_o
Small == Cardinality(DOMAIN o) < MaxOptions
Names == <<[stem |-> "a", ext |-> ".h5"], [stem |-> "b.c", ext |-> ".fil"]>>
Changed(p, q) == {j \in 1..10 : Stages(p)[j] /= Stages(q)[j]}
Without(n) == [m \in DOMAIN o \ {n} |-> o[m]]
OneEach == \A n \in DOMAIN o :
    LET d == Changed(o, Without(n)) out == Outputs(o, Names) /= Outputs(Without(n), Names) IN
    /\ Cardinality(d) <= 1 /\ (d /= {} => ~out)
    /\ o[n] = Default[n] => d = {} /\ ~out
    /\ o[n] /= Default[n] => d /= {} \/ out \/ n = "form" \/ (n = "rolloff" /\ Full(o).taps)
\* noise is estimated once everything is flagged, hits are looked for once there is a plane and a noise, and are then filtered
Pos(op) == CHOOSE j \in 1..10 : Stages(o)[j].op = op
Order == LET hits == IF Full(o).method = "cc" THEN "hitscc" ELSE "hitslm" IN
         /\ Pos("slice") < Pos("normalize") /\ Pos("normalize") < Pos("sk") /\ Pos("sk") < Pos("noise") /\ Pos("sclip") < Pos("noise")
         /\ Pos("noise") < Pos(hits) /\ Pos("dedrift") < Pos(hits) /\ Pos(hits) < Pos("filter")
FormatLaws == \A f \in {"", "dat", "capnp", "odd"}, p \in {"", "dat", "x.dat", "x.capnp", "x.cp", "x.dat.cp", ".dat"} :
    /\ WriteFormat(f, p) \in {"dat", "capnp"} /\ (f \in {"dat", "capnp"} => WriteFormat(f, p) = f)
    /\ (f = "odd" => WriteFormat(f, p) = "capnp") /\ (WriteFormat("", p) = "dat" <=> EndsWith(p, ".dat"))
=============================================================================
