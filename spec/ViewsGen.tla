------------------------------ MODULE ViewsGen ------------------------------
(* Random behaviours of Views, printed for replay in the implementation. *)
EXTENDS Views, Json, Randomization
CONSTANT Depth
VARIABLE hist
\* TLC evaluates a constant expression once: naming the state keeps every choice fresh
Fresh(S) == {x \in S : Len(hist) >= 0}
Pick(S) == RandomElement(Fresh(S))
Shapes == {<<6>>, <<5>>, <<2, 3>>, <<3, 4>>, <<4, 1>>, <<1, 5>>, <<2, 2, 3>>, <<1, 3, 2>>, <<3, 1, 4>>, <<2, 1, 1, 3>>, <<8, 3>>, <<2, 3, 2, 2>>, <<2, 1, 2, 2, 2>>, <<40>>, <<5, 9>>}
AnySpec(nd) == <<Pick(0..(nd - 1)), Pick({0, 0, 1, 2, -1, -2, -3, 7}), Pick({1, 2, 3, 4, 9, -1, 100}), Pick({1, 1, 1, 2, 3})>>
\* a slice specification that is legal for the view most of the time
SpecFor(v) == LET d == Pick(0..(Len(v.shape) - 1)) z == v.shape[d + 1]
                  s == Pick(0..z) e == Pick(s..(z + 1))
              IN <<d, IF Pick(1..3) = 1 /\ s < z THEN s - z ELSE s, IF Pick(1..3) = 1 /\ e < z THEN e - z ELSE e, Pick({1, 1, 2, 3})>>
Spec0(v) == IF Pick(1..6) = 1 THEN AnySpec(Len(v.shape)) ELSE SpecFor(v)
\* a shape with as many elements, or nearly so
OtherShape(v) ==
    LET n == Len(v.pos)
        k == Pick({1, 2, 3, 4, 5, 6, 8})
        j == Pick({1, 2, 3})
        m == IF Pick(1..8) = 1 THEN n + 1 ELSE n
    IN CASE n % (k * j) = 0 /\ Pick(1..2) = 1 -> Pick({<<k, n \div (k * j), j>>, <<k, j, m \div (k * j)>>, <<1, m \div k, 1, k>>})
         [] n % k = 0 -> Pick({<<k, n \div k>>, <<m \div k, k>>, <<m \div k, 1, k>>, <<m>>})
         [] OTHER -> Pick({<<m>>, <<1, n>>, <<n, 1>>})
Ops == {"new", "slice", "slice2", "squeeze", "unsqueeze", "reshape", "handle", "todev", "share", "lend", "giveback", "borrow", "copy", "copyto", "fill", "sassign", "sassigns", "drop"}
Record(op) ==
    LET sh == Pick(Shapes) a == IF Live = {} THEN "" ELSE Pick(Live) d == Pick(Names) dl == IF Live = {} THEN "" ELSE Pick(Live)
    IN IF op \in {"new", "borrow"} \/ Live = {}
       THEN {[op |-> IF op = "borrow" THEN op ELSE "new", d |-> d, a |-> "", dt |-> dt, n |-> s, x |-> <<>>, y |-> <<>>, v |-> [i \in 1..Numel(s) |-> (i * m) % 97]] :
                dt \in {Pick({"f", "f", "i", "b", "u", "d", "h"})}, s \in RandomSubset(1, Fresh(Shapes)), m \in RandomSubset(1, Fresh({1, 3, 7, 11, 31}))}
       ELSE {[op |-> op, d |-> IF op \in {"copyto", "sassign", "sassigns"} THEN q ELSE p, a |-> b, dt |-> "",
              n |-> CASE op = "squeeze" -> <<Pick({0, 1, 2, -1, -2, 3})>>
                      [] op = "unsqueeze" -> <<Pick(0..Len(hs[b].shape))>>
                      [] op = "reshape" -> OtherShape(hs[b])
                      [] op = "giveback" -> <<IF lent = <<>> THEN 1 ELSE Pick(DOMAIN lent)>>
                      [] op = "fill" -> <<Pick(0..99)>> [] OTHER -> <<>>,
              x |-> CASE op \in {"slice", "slice2"} -> Spec0(hs[b])
                      [] op \in {"sassign", "sassigns"} -> Spec0(hs[q]) [] OTHER -> <<>>,
              y |-> IF op = "slice2" THEN AnySpec(Len(hs[b].shape)) ELSE IF op = "sassigns" THEN Spec0(hs[b]) ELSE <<>>,
              v |-> <<>>] : p \in RandomSubset(1, Fresh(Names)), q \in RandomSubset(1, Fresh(Live)), b \in RandomSubset(1, Fresh(Live))}
GenInit == Init /\ hist = <<>>
GenNext == \E op \in RandomSubset(6, Fresh(Ops)) : \E c \in Record(op) :
              /\ c.op = "reshape" => Len(c.n) /= Len(hs[c.a].shape)
              /\ Apply(c) /\ hist' = Append(hist, c)
              /\ Len(bufs') <= 12 /\ \A h \in DOMAIN hs' : Len(hs'[h].shape) \in 1..5
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
