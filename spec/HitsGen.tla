------------------------------- MODULE HitsGen -------------------------------
(* Random behaviours of Hits, printed for replay; contents are chosen by the replay. *)
EXTENDS Hits, Json, Randomization
CONSTANTS Depth, NSrc, NOpt, Ops
VARIABLE hist
Fresh(S) == {x \in S : Len(hist) >= 0}
Pick(S) == RandomElement(Fresh(S))
C(op, a, n, l) == [op |-> op, d |-> "o" \o ToString(Len(hist)), a |-> a, n |-> n, l |-> l, lvl |-> IF a \in Live THEN ob[a].lvl ELSE ""]
Base(op) == CASE op = "get2" -> "get" [] op = "wrap2" -> "wrap" [] op = "filter2" -> "filter" [] op = "search2" -> "search" [] OTHER -> op
Path(o) == CASE o.lvl = "c" -> <<>>
             [] o.lvl = "s" -> <<Pick(DOMAIN o.x)>>
             [] o.lvl = "t" -> LET i == Pick(DOMAIN o.x) IN <<i, Pick(DOMAIN o.x[i])>>
             [] o.lvl = "k" -> LET i == Pick(DOMAIN o.x) j == Pick(DOMAIN o.x[i]) IN <<i, j, Pick(DOMAIN o.x[i][j])>>
Legal(op) ==
    IF Live = {} \/ op = "make" THEN {C("make", "", Pick(1..NSrc), <<>>)}
    ELSE LET a == Pick(Live) IN
         CASE op = "wrap" -> IF ob[a].lvl = "k" THEN {}
                             ELSE LET S == {b \in Live : ob[b].lvl = ob[a].lvl}
                                  IN {[C("wrap", "", 0, <<a>> \o [j \in 1..Pick(0..2) |-> Pick(S)]) EXCEPT !.lvl = ob[a].lvl]}
           [] op = "pick" -> IF ob[a].lvl = "c" THEN {} ELSE {C("pick", a, Pick(DOMAIN ob[a].x), <<>>)}
           [] op = "get"  -> {C("get", a, 0, Path(ob[a]))}
           [] op = "search" -> {C(op, a, Pick(1..NOpt), <<>>)}
           [] op = "filter" -> {IF AllSet(ob[a]) THEN C(op, a, Pick({0, 1}), <<>>) ELSE [C(op, a, Pick({0, 1}), <<>>) EXCEPT !.d = ""]}
           [] op \in {"set", "setlazy"} -> {C(op, a, Pick(1..NSrc), <<>>)}
           [] op = "filterlist" -> {C(op, "", Pick(1..NSrc), <<Pick({0, 1})>>)}
           [] op = "getlist" -> {C(op, "", Pick(1..NSrc), <<>>)}
           [] OTHER       -> {C(op, a, 0, <<>>)}
GenInit == /\ srcs = [j \in 1..NSrc |-> [set |-> j < 3, list |-> <<>>, cands |-> [o \in 1..NOpt |-> <<>>], md |-> [num |-> 0]]]
           /\ ob = <<>> /\ res = [exc |-> ""] /\ hist = <<>>
Step == \E op \in IF Len(hist) < 2 THEN {"make"} ELSE RandomSubset(5, Fresh(Ops)) : \E c \in Legal(Base(op)) : Apply(c) /\ hist' = Append(hist, c)
GenSpec == GenInit /\ [][Step]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
