------------------------------- MODULE ViewsMC -------------------------------
(* Every behaviour of Views with a few handles over tiny arrays. *)
EXTENDS Views
CONSTANTS MaxBufs, MaxLevel
Specs == {<<d, s, e, st>> : d \in 0..1, s \in {0, 1, -1}, e \in {1, 2, -1}, st \in 1..2}
C(op, d, a, n, x, y) == [op |-> op, d |-> d, a |-> a, n |-> n, x |-> x, y |-> y, dt |-> "f", v |-> <<>>]
Few == {<<0, 0, 1, 1>>, <<1, 1, 2, 1>>, <<0, 1, 2, 1>>}
Calls ==
    UNION {
      {C("slice", d, a, <<>>, x, <<>>) : d \in Names, a \in Live, x \in Specs},
      {C("slice2", d, a, <<>>, x, y) : d \in Names, a \in Live, x \in Few, y \in Few},
      {C("squeeze", d, a, <<n>>, <<>>, <<>>) : d \in Names, a \in Live, n \in {0, -1, 2}},
      {C(op, d, a, <<>>, <<>>, <<>>) : op \in {"handle", "share", "copy", "copyto", "drop"}, d \in Names, a \in Live},
      {C("reshape", d, a, n, <<>>, <<>>) : d \in Names, a \in Live, n \in {<<4>>, <<2>>, <<1, 2>>, <<2, 2>>}},
      {C("lend", "", a, <<>>, <<>>, <<>>) : a \in Live},
      {C("giveback", "", "", <<n>>, <<>>, <<>>) : n \in DOMAIN lent},
      {C("fill", "", a, <<9>>, <<>>, <<>>) : a \in Live},
      {C("sassign", d, a, <<>>, x, <<>>) : d \in Live, a \in Live, x \in Few},
      {C("sassigns", d, a, <<>>, x, y) : d \in Live, a \in Live, x \in Few, y \in Few}}
MCInit == /\ bufs = <<[dt |-> "f", e |-> <<1, 2, 3, 4>>]>>
          /\ \E h \in Names : hs = (h :> View(1, <<2, 2>>, <<1, 2, 3, 4>>))
          /\ lent = <<>> /\ res = ""
MCNext == \E c \in Calls : Apply(c) /\ Len(bufs') <= MaxBufs /\ Len(lent') <= 1
              /\ \A h \in DOMAIN hs' : Len(hs'[h].shape) <= 2
Depth == TLCGet("level") <= MaxLevel
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
