----------------------------- MODULE PassbandGen -----------------------------
(* Random behaviours of Passband, printed for replay; contents are chosen by the replay. *)
EXTENDS Passband, Json, Randomization
CONSTANTS Depth, NSrc, NResp
VARIABLE hist
Fresh(S) == {x \in S : Len(hist) >= 0}
Pick(S) == RandomElement(Fresh(S))
C(op, a, n, l) == [op |-> op, d |-> "o" \o ToString(Len(hist)), a |-> a, n |-> n, l |-> l, lvl |-> IF a \in Live THEN ob[a].lvl ELSE ""]
Ops == {"make", "handle", "normalize", "equalize", "equalizefile", "wrap", "wrap2", "pick", "get", "get2"}
Base(op) == CASE op = "get2" -> "get" [] op = "wrap2" -> "wrap" [] OTHER -> op
Path(o) == CASE o.lvl = "c" -> <<>>
             [] o.lvl = "s" -> <<Pick(DOMAIN o.x)>>
             [] o.lvl = "t" -> LET i == Pick(DOMAIN o.x) IN <<i, Pick(DOMAIN o.x[i])>>
             [] o.lvl = "k" -> LET i == Pick(DOMAIN o.x) j == Pick(DOMAIN o.x[i]) IN <<i, j, Pick(DOMAIN o.x[i][j])>>
Legal(op) ==
    IF Live = {} \/ op = "make" THEN {C("make", "", Pick(1..NSrc), <<>>)}
    ELSE LET a == Pick(Live) IN
         CASE op = "wrap" -> IF ob[a].lvl = "k" THEN {}
                             ELSE LET S == {b \in Live : ob[b].lvl = ob[a].lvl}
                                  IN {[C("wrap", "", 0, <<a>> \o [j \in 1..Pick(0..2) |-> Pick(S)]) EXCEPT !.lvl = ob[a].lvl]}
           [] op = "pick" -> IF ob[a].lvl = "c" THEN {} ELSE {C("pick", a, Pick(DOMAIN ob[a].x), <<>>)}
           [] op = "get"  -> {C("get", a, 0, Path(ob[a]))}
           [] op \in {"equalize", "equalizefile"} ->
                IF \E j \in DOMAIN Channels(ob[a]) : Channels(ob[a])[j].neq >= 2 THEN {} ELSE {C(op, a, Pick(1..NResp), <<>>)}
           [] OTHER       -> {C(op, a, 0, <<>>)}
GenInit == /\ srcs = [j \in 1..NSrc |-> [nt |-> 1, nf |-> 1, data |-> <<1>>, mask |-> <<0>>]] /\ hs = [j \in 1..NResp |-> <<<<1, 1>>>>]
           /\ ob = <<>> /\ res = [exc |-> ""] /\ hist = <<>>
Step == \E op \in IF Len(hist) < 2 THEN {"make"} ELSE RandomSubset(5, Fresh(Ops)) : \E c \in Legal(Base(op)) : Apply(c) /\ hist' = Append(hist, c)
GenSpec == GenInit /\ [][Step]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
