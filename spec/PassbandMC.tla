------------------------------ MODULE PassbandMC ------------------------------
EXTENDS Passband
CONSTANTS MaxLevel, Vals
C(op, d, a, n, l) == [op |-> op, d |-> d, a |-> a, n |-> n, l |-> l]
Obs == {"x", "y"}
Calls == {C(op, d, a, 1, <<>>) : op \in {"handle", "normalize", "equalize", "pick"}, d \in Obs, a \in Obs}
         \cup {C("equalize", d, a, 2, <<>>) : d \in Obs, a \in Obs}
         \cup {C("wrap", d, "", 0, l) : d \in Obs, l \in {<<"x">>, <<"x", "y">>}}
Init == /\ \E v \in [1..4 -> Vals] : srcs = <<[nt |-> 2, nf |-> 2, data |-> v, mask |-> <<0, 1, 0, 0>>]>>
        /\ hs = <<<<<<1, 2>>, <<3, 2>>>>, <<<<1, 1>>, <<5, 4>>>>>>
        /\ ob = [o \in {"x"} |-> Obj("c", Channel(1))] /\ res = [exc |-> ""]
Small == EveryChannel(LAMBDA c : c.neq <= 2)
Next == \E c \in Calls : Apply(c)
Depth == TLCGet("level") <= MaxLevel /\ Small
Spec == Init /\ [][Next]_vars
=============================================================================
