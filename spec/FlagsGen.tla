------------------------------- MODULE FlagsGen -------------------------------
(* Random behaviours of Flags, printed for replay.  The contents of the      *)
(* sources are chosen by the replay; names are never bound twice.            *)
EXTENDS Flags, Json, Randomization
CONSTANTS Depth, NSrc, Mode       \* Mode "all", "noise" (only what is exact on huge samples), "ladder" (calls on the highest level built), or
                                  \* "python" (only channels as they were made become scans, limits only for channels)
VARIABLE hist
Fresh(S) == {x \in S : Len(hist) >= 0}
Pick(S) == RandomElement(Fresh(S))
C(op, a, n, l, g) == [op |-> op, d |-> "o" \o ToString(Len(hist)), a |-> a, n |-> n, l |-> l, g |-> g, lvl |-> IF a \in Live THEN ob[a].lvl ELSE ""]
Calls == {"handle", "rolloff", "sk", "mag", "magauto", "sclip", "noise"}
Ops == IF Mode /= "noise" THEN {"make", "handle", "rolloff", "sk", "mag", "magauto", "sclip", "noise", "noise2", "wrap", "wrap2", "pick", "get", "get2", "get3"}
       ELSE {"make", "rolloff", "mag", "mag2", "noise", "noise2", "wrap", "pick", "get", "get2"}
Base(op) == CASE op \in {"get2", "get3"} -> "get" [] op = "wrap2" -> "wrap" [] op = "noise2" -> "noise" [] op = "mag2" -> "mag" [] OTHER -> op
Path(o) == CASE o.lvl = "c" -> <<>>
             [] o.lvl = "s" -> <<Pick(DOMAIN o.x)>>
             [] o.lvl = "t" -> LET i == Pick(DOMAIN o.x) IN <<i, Pick(DOMAIN o.x[i])>>
             [] o.lvl = "k" -> LET i == Pick(DOMAIN o.x) j == Pick(DOMAIN o.x[i]) IN <<i, j, Pick(DOMAIN o.x[i][j])>>
Param(op) == CASE op = "rolloff" -> <<Pick(0..28)>>
               [] op = "sk" -> LET lo == Pick({1, 2, 4, 6, 8}) IN <<lo, lo + Pick({1, 4, 10, 24}), Pick({1, 2, 2, 4})>>
               [] op = "mag" -> <<IF Mode /= "noise" THEN Pick({-3, 1, 5, 8, 11, 15, 24, 40}) ELSE Pick({99, 100})>>
               [] op = "sclip" -> <<Pick(0..5), Pick({2, 4, 5, 7, 10, 12, 16}), Pick({2, 4, 5, 7, 10, 12, 16})>>
               [] op = "noise" -> <<IF Mode /= "noise" THEN Pick({0, 1, 1}) ELSE 1>>
               [] OTHER -> <<>>
Rank(l) == CASE l = "c" -> 0 [] l = "s" -> 1 [] l = "t" -> 2 [] l = "k" -> 3
Top == {a \in Live : \A b \in Live : Rank(ob[b].lvl) <= Rank(ob[a].lvl)}
Rise == IF hist = <<>> THEN 0 ELSE hist[1].n
RECURSIVE Origin(_)
Origin(a) == LET c == hist[CHOOSE j \in 1..Len(hist) : hist[j].d = a] IN IF c.op = "handle" THEN Origin(c.a) ELSE c.op
Pristine(a) == ob[a].lvl /= "c" \/ (ob[a].x.used = {} /\ ob[a].x.noise = None /\ Origin(a) = "make")
Made == IF Mode = "python" THEN {a \in Live : Pristine(a)} ELSE Live
\* Python cannot give a channel its estimate: it is only looked at
Usable(op) == IF Mode = "python" /\ op /= "get" THEN {a \in Live : ob[a].lvl /= "c" \/ Origin(a) /= "noise"} ELSE Live
Legal(op) ==
    IF Live = {} \/ op = "make" THEN {C("make", "", Pick(1..NSrc), <<>>, <<>>)}
    ELSE LET a == Pick(IF Mode = "ladder" THEN Top ELSE Usable(op)) IN
         CASE op = "wrap" -> IF ob[a].lvl = "k" \/ a \notin Made THEN {}
                             ELSE LET S == {b \in Made : ob[b].lvl = ob[a].lvl}
                                  IN {[C("wrap", "", 0, <<a>> \o [j \in 1..Pick(0..2) |-> Pick(S)], <<>>) EXCEPT !.lvl = ob[a].lvl]}
           [] op = "pick" -> IF ob[a].lvl = "c" THEN {} ELSE {C("pick", a, Pick(DOMAIN ob[a].x), <<>>, <<>>)}
           [] op = "get"  -> {C("get", a, 0, Path(ob[a]), <<>>)}
           [] op = "mag" /\ Mode = "python" /\ ob[a].lvl /= "c" -> {}
           [] OTHER       -> IF Fits(op, ob[a]) THEN {C(op, a, 0, <<>>, Param(op))} ELSE {}
GenInit == srcs = [j \in 1..NSrc |-> [nt |-> 1, nf |-> 2, n |-> 1, data |-> <<1, 1>>, mask |-> <<0, 0>>]] /\ ob = <<>> /\ res = [exc |-> ""] /\ hist = <<>>
Step == \E op \in IF Len(hist) < 2 THEN {"make"}
                  ELSE IF Mode /= "ladder" THEN RandomSubset(5, Fresh(Ops))
                  ELSE IF Len(hist) < 2 + Rise THEN {"wrap"} ELSE Calls : \E c \in Legal(Base(op)) : Apply(c) /\ hist' = Append(hist, c)
GenSpec == GenInit /\ [][Step]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
