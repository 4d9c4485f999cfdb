------------------------------- MODULE StoreMC -------------------------------
(* Every short behaviour of Store over small objects of every kind.           *)
EXTENDS Store
CONSTANTS MaxLevel
C(op, d, a, n, m, l, ll) == [op |-> op, d |-> d, a |-> a, n |-> n, m |-> m, l |-> l, ll |-> ll, s |-> 1, kind |-> ""]
Obs == {"x", "y"}
Calls == {C("hits", d, "", 0, 0, <<1, 2>>, <<>>) : d \in Obs} \cup {C("events", d, "", 0, 0, <<>>, <<<<1>>, <<2, 1>>>>) : d \in Obs}
         \cup {C("cc", d, "", 1, m, <<2>>, <<>>) : d \in Obs, m \in {0, 1}}
         \cup {C("scan", d, "", 0, m, <<>>, <<<<1>>, <<>>>>) : d \in Obs, m \in {0, 2}}
         \cup {C("state", d, a, 0, 0, <<>>, <<>>) : d \in Obs, a \in Obs}
         \cup {C("slice", d, a, 1, 1, <<>>, <<>>) : d \in Obs, a \in Obs}
         \cup {C("target", d, "", 0, 0, l, <<>>) : d \in Obs, l \in {<<>>, <<"x">>, <<"y", "x">>}} \cup {C("cadence", d, "", 0, 0, l, <<>>) : d \in Obs, l \in {<<"x">>, <<"y">>}}
         \cup {C("pick", d, a, 1, 0, <<>>, <<>>) : d \in Obs, a \in Obs}
         \cup {C("save", "", a, n, 0, <<>>, <<>>) : a \in Obs, n \in {0, 1, 2}}
         \cup {[C("load", d, "", n, 0, <<>>, <<>>) EXCEPT !.kind = k] : d \in Obs, n \in {1, 2}, k \in Kinds}
Init == ob = <<>> /\ files = <<>> /\ res = Ok
Next == \E c \in Calls : Apply(c)
Depth == TLCGet("level") <= MaxLevel
Spec == Init /\ [][Next]_vars
MCNames == <<"a", "b">>
=============================================================================
