------------------------------- MODULE FlagsMC -------------------------------
(* Every short behaviour of Flags over every small spectrogram. *)
EXTENDS Flags
CONSTANTS MaxLevel, Vals
C(op, d, a, n, l, g) == [op |-> op, d |-> d, a |-> a, n |-> n, l |-> l, g |-> g]
Obs == {"x", "y"}
Calls == {C("handle", d, a, 0, <<>>, <<>>) : d \in Obs, a \in Obs}
         \cup {C("rolloff", d, a, 0, <<>>, <<w>>) : d \in Obs, a \in Obs, w \in {0, 16, 32}}
         \cup {C("sk", d, a, 0, <<>>, <<3, 9, 2>>) : d \in Obs, a \in Obs}
         \cup {C("mag", d, a, 0, <<>>, <<1>>) : d \in Obs, a \in Obs}
         \cup {C("magauto", d, a, 0, <<>>, <<>>) : d \in {"x"}, a \in Obs}
         \cup {C("sclip", d, a, 0, <<>>, <<it, 5, 3>>) : d \in Obs, a \in Obs, it \in {0, 1, 4}}
         \cup {C("noise", d, a, 0, <<>>, <<m>>) : d \in Obs, a \in Obs, m \in {0, 1}}
         \cup {C("wrap", d, "", 0, l, <<>>) : d \in Obs, l \in {<<"x">>, <<"x", "y">>}}
         \cup {C("pick", d, a, 1, <<>>, <<>>) : d \in Obs, a \in Obs}
Init == /\ \E v \in [1..6 -> Vals], m \in {0, 64} : srcs = <<[nt |-> 2, nf |-> 3, n |-> 1, data |-> v, mask |-> [p \in 1..6 |-> IF p = 2 THEN m ELSE 0]]>>
        /\ ob = [o \in {"x"} |-> Obj("c", Channel(1))] /\ res = [exc |-> ""]
Next == \E c \in Calls : Apply(c)
Depth == TLCGet("level") <= MaxLevel
Spec == Init /\ [][Next]_vars
\* an object never changes except by being bound anew, and the sources never do
Stable == [][srcs' = srcs /\ \A a \in Live : a \in DOMAIN ob']_vars
=============================================================================
