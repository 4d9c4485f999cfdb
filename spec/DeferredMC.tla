----------------------------- MODULE DeferredMC -----------------------------
(* Every behaviour of Deferred with few handles, up to a number of calls. *)
EXTENDS Deferred
CONSTANTS MaxLevel
C(op, d, s, a, pol, n) == [op |-> op, d |-> d, s |-> s, a |-> a, pol |-> pol, n |-> n, v |-> <<7, 8>>]
Calls == {C("array", "", "", a, "", 0) : a \in ANames}
         \cup {C("make", d, "", "", p, 10) : d \in DNames, p \in Policies}
         \cup {C("from", d, "", a, "", 0) : d \in DNames, a \in ANames}
         \cup {C("copy", d, s, "", "", 0) : d \in DNames, s \in DNames}
         \cup {C("use", d, "", a, "", 0) : d \in DNames, a \in ANames}
         \cup {C("fill", "", "", a, "", 50) : a \in ANames}
         \cup {C("drop", d, "", "", "", 0) : d \in DNames}
MCNext == \E c \in Calls : Apply(c)
Depth == TLCGet("level") <= MaxLevel
MCSpec == Init /\ [][MCNext]_vars
=============================================================================
