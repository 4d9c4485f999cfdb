-------------------------------- MODULE HitsMC --------------------------------
(* Every short behaviour of Hits over small lists of hits of every kind.     *)
EXTENDS Hits
CONSTANTS MaxLevel
C(op, d, a, n, l) == [op |-> op, d |-> d, a |-> a, n |-> n, l |-> l]
Obs == {"x", "y"}
H(n, drift, roll, low) == [idx |-> n, rate |-> 0, freq |-> n, t0 |-> 0, dur |-> 1, drift |-> drift, power |-> 1, snr |-> <<1, 0>>, bw |-> 0, binw |-> 0, cc |-> 0, span |-> 8,
                           low |-> low, high |-> 1, roll |-> roll]
Kinds == {H(1, 0, 0, 0), H(2, -500000000, 0, 0), H(3, 7, 1, 0), H(4, 2000, 0, 2), H(5, 2000, 0, 0)}
X(c, r) == [chan |-> c, rate |-> r, mid |-> c, max |-> 9, noise |-> 10000, binw |-> 1, low |-> r, high |-> 0, roll |-> 0]
Calls == {C("handle", d, a, 0, <<>>) : d \in Obs, a \in Obs}
         \cup {C(op, d, a, n, <<>>) : op \in {"filter", "search", "set"}, d \in Obs, a \in Obs, n \in {1}} \cup {C("filter", d, a, 0, <<>>) : d \in Obs, a \in Obs}
         \cup {C("wrap", d, "", 0, l) : d \in Obs, l \in {<<"x">>, <<"y", "x">>}} \cup {C("pick", d, a, 1, <<>>) : d \in Obs, a \in Obs}
         \cup {C("list", "", a, 0, <<>>) : a \in Obs}
Init == /\ \E a \in Kinds, b \in Kinds, s \in BOOLEAN :
              srcs = <<[set |-> s, list |-> <<a, b>>, cands |-> <<<<X(3, 0), X(5, 1)>>>>,
                        md |-> [fch1 |-> 1000, foff |-> -3, t0 |-> 5, tsamp |-> 1, nt |-> 4, rates |-> <<0, 500>>, floor |-> 2, num |-> 7]]>>
        /\ ob = [o \in {"x"} |-> Obj("c", Channel(1))] /\ res = [exc |-> ""]
Next == \E c \in Calls : Apply(c)
Depth == TLCGet("level") <= MaxLevel
Spec == Init /\ [][Next]_vars
\* searching forgets earlier hits, and finds the same ones again
SearchLaws == EveryChannel(LAMBDA c : Search(c, 1) = Search(Search(c, 1), 1) /\ Search(c, 1).hits = Search(Set(c, 1), 1).hits)
=============================================================================
