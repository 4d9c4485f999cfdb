----------------------------- MODULE DeferredGen -----------------------------
(* Random behaviours of Deferred, printed for replay in the implementation. *)
EXTENDS Deferred, Json, Randomization
CONSTANT Depth
VARIABLE hist
\* TLC evaluates a constant expression once: naming the state keeps every choice fresh
Fresh(S) == {x \in S : Len(hist) >= 0}
Pick(S) == RandomElement(Fresh(S))
C(op, d, s, a, pol, n) == [op |-> op, d |-> d, s |-> s, a |-> a, pol |-> pol, n |-> n, v |-> <<Pick(0..99), Pick(0..99)>>]
Live == DOMAIN ds
Calls(op) ==
    CASE op = "array" -> {C("array", "", "", Pick(ANames), "", 0)}
      [] op = "make"  -> {C("make", Pick(DNames), "", "", Pick(Policies \cup {"default"}), 100 * Pick(1..9))}
      [] op = "from"  -> IF as = <<>> THEN {} ELSE {C("from", Pick(DNames), "", Pick(DOMAIN as), "", 0)}
      [] op \in {"copy", "to"} -> IF ds = <<>> THEN {} ELSE {C(op, Pick(DNames), Pick(Live), "", "", 0)}
      [] op = "use"   -> IF ds = <<>> THEN {} ELSE {C("use", Pick(Live), "", Pick(ANames), "", 0)}
      [] op = "fill"  -> IF as = <<>> THEN {} ELSE {C("fill", "", "", Pick(DOMAIN as), "", Pick(0..999))}
      [] op = "drop"  -> IF ds = <<>> THEN {} ELSE {C("drop", Pick(Live), "", "", "", 0)}
Ops == {"array", "make", "from", "copy", "to", "use", "use2", "use3", "copy2", "fill", "fill2", "drop"}
Base(op) == IF op \in {"use2", "use3"} THEN "use" ELSE IF op = "copy2" THEN "copy" ELSE IF op = "fill2" THEN "fill" ELSE op
GenInit == Init /\ hist = <<>>
GenNext == \E op \in IF ds = <<>> THEN {"make", "array", "from"} ELSE RandomSubset(5, Fresh(Ops)) : \E c \in Calls(Base(op)) : Apply(c) /\ hist' = Append(hist, c)
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
