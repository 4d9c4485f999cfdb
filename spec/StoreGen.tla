------------------------------- MODULE StoreGen -------------------------------
(* Random behaviours of Store, printed for replay. *)
EXTENDS Store, Json, Randomization
CONSTANTS Depth, NHit, NSrc
VARIABLE hist
Fresh(S) == {x \in S : Len(hist) >= 0}
Pick(S) == RandomElement(Fresh(S))
MCNames == <<"a", "b", "a", "", "c">>
Base == [op |-> "", d |-> "o" \o ToString(Len(hist)), a |-> "", n |-> 0, m |-> 0, l |-> <<>>, ll |-> <<>>, s |-> 1, kind |-> ""]
Ids0 == [j \in 1..Pick({0, 1, 1, 2, 3, 5}) |-> Pick(1..NHit)]
Of(kind) == {n \in DOMAIN ob : ob[n].kind = kind}
RandSeq(S, n) == [j \in 1..n |-> Pick(S)]
Ops == {"hits", "events", "cc", "scan", "h5scan", "scan2", "target", "cadence", "slice", "pick", "state", "get", "get2", "save", "save2", "save3", "load", "load2", "load3"}
Real(op) == CASE op = "scan2" -> "scan" [] op = "get2" -> "get" [] op \in {"save2", "save3"} -> "save" [] op \in {"load2", "load3"} -> "load" [] OTHER -> op
Legal(op) ==
    LET b == [Base EXCEPT !.op = op] IN
    CASE op = "hits" -> {[b EXCEPT !.l = Ids0]}
      [] op = "events" -> {[b EXCEPT !.ll = [j \in 1..Pick({0, 1, 2, 3}) |-> Ids0]]}
      [] op = "cc" -> {[b EXCEPT !.s = Pick(1..NSrc), !.n = Pick(0..3), !.l = Ids0, !.m = IF Pick(1..6) = 1 THEN 1 ELSE 0]}
      [] op \in {"scan", "h5scan"} -> LET ll == [j \in 1..Pick({1, 1, 2, 3}) |-> Ids0] IN
             {[b EXCEPT !.s = Pick(IF op = "scan" THEN 1..NSrc ELSE (NSrc + 1)..Len(Names)), !.ll = ll, !.m = IF op = "scan" /\ Pick(1..8) = 1 THEN Pick(DOMAIN ll) ELSE 0]}
      [] op = "target" -> IF Of("scan") = {} THEN {} ELSE {[b EXCEPT !.l = RandSeq(Of("scan"), Pick({0, 1, 1, 2, 3}))]}
      [] op = "cadence" -> IF Of("target") = {} THEN {} ELSE {[b EXCEPT !.l = RandSeq(Of("target"), Pick({0, 1, 2, 2, 3}))]}
      [] op = "slice" -> IF Of("scan") = {} THEN {} ELSE LET a == Pick(Of("scan")) n == Pick(0..(Len(ob[a].v.chs) - 1)) IN
                         {[b EXCEPT !.a = a, !.n = n, !.m = Pick(1..(Len(ob[a].v.chs) - n))]}
      [] op = "pick" -> LET S == {n \in DOMAIN ob : ob[n].kind \in {"scan", "target", "cadence"}} IN
                        IF S = {} THEN {}
                        ELSE LET a == Pick(S) o == ob[a] D == IF o.kind = "scan" THEN DOMAIN o.v.chs ELSE IF o.kind = "target" THEN DOMAIN o.v.scans ELSE DOMAIN o.v
                             IN IF D = {} THEN {} ELSE {[b EXCEPT !.a = a, !.n = Pick(D)]}
      [] op = "state" -> IF Of("hits") = {} THEN {} ELSE {[b EXCEPT !.a = Pick(Of("hits"))]}
      [] op = "get" -> {[b EXCEPT !.a = Pick(DOMAIN ob), !.d = ""]}
      [] op = "save" -> LET a == Pick(DOMAIN ob) IN {[b EXCEPT !.a = a, !.n = IF Pick(1..12) = 1 THEN 0 ELSE Pick(1..3), !.m = Pick({0, 1}), !.d = "", !.kind = ob[a].kind]}
      [] op = "load" -> LET n == IF files = <<>> \/ Pick(1..10) = 1 THEN Pick(1..3) ELSE Pick(DOMAIN files) IN {[b EXCEPT !.n = n, !.kind = IF n \in DOMAIN files THEN files[n].kind ELSE Pick(Kinds)]}
GenInit == ob = <<>> /\ files = <<>> /\ res = Ok /\ hist = <<>>
Step == \E op \in IF Len(hist) < 2 THEN {"hits", "events", "scan", "cc", "h5scan"} ELSE RandomSubset(6, Fresh(Ops)) : \E c \in Legal(Real(op)) : Apply(c) /\ hist' = Append(hist, c @@ [ok |-> res'.exc = ""])
GenSpec == GenInit /\ [][Step]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
