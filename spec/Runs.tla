-------------------------------- MODULE Runs --------------------------------
(* Large arrays, as runs of equal elements: a sequence of [n, v].  What the  *)
(* operations of ArrayOps make of them, without listing the elements.        *)
EXTENDS ArrayOps, FiniteSetsExt, SequencesExt
\* positions of the last elements of the runs
Ends(r) == TLCEval([i \in 1..Len(r) |-> SumSeq([j \in 1..i |-> r[j].n])])
Size(r) == SumSeq([j \in 1..Len(r) |-> r[j].n])
EndSet(r) == LET e == Ends(r) IN {e[i] : i \in 1..Len(r)}
At(r, p) == LET e == Ends(r) IN r[CHOOSE i \in 1..Len(r) : e[i] >= p /\ \A j \in 1..(i - 1) : e[j] < p].v
\* the parts of lo..hi in which all of some arrays are constant: <<number of elements, a position>>
Parts(E, lo, hi) ==
    LET s == SetToSortSeq({e \in E : lo <= e /\ e < hi} \cup {lo - 1, hi}, <)
    IN TLCEval([i \in 1..(Len(s) - 1) |-> <<s[i + 1] - s[i], s[i + 1]>>])
\* got is what F makes of the elements, in an array of n elements
Elementwise(got, E, n, F(_)) == Size(got) = n /\ \A p \in {e \in E \cup EndSet(got) : e <= n} : At(got, p) = F(p)
\* statistics of the elements of lo..hi of a of which the mask is zero
Unflagged(a, m, lo, hi) == SelectSeq(Parts(EndSet(a) \cup EndSet(m), lo, hi), LAMBDA x : At(m, x[2]) = 0)
CountOf(p) == SumSeq([i \in 1..Len(p) |-> p[i][1]])
TotalOf(a, p) == SumSeq([i \in 1..Len(p) |-> p[i][1] * At(a, p[i][2])])
StatOK(op, a, p, r) ==
    LET n == CountOf(p) s == TotalOf(a, p) V == {At(a, p[i][2]) : i \in 1..Len(p)} IN
    CASE op = "sum"  -> r = s
      [] op = "max"  -> r = Max(V)
      [] op = "mean" -> Abs(r) < 2000000 /\ Abs(r - (IF s < 0 THEN -1 ELSE 1) * Digits(Abs(s), n, 3)) <= 2        \* thousandths
      [] op = "stddev" ->     \* hundredths; generated so that as many elements lie d above the mean as d below
           LET d == (Max(V) - Min(V)) \div 2 IN Abs(r - 100 * d) <= 1 + d \div 50
      [] op = "median" ->     \* halves
           LET q == SortSeq(p, LAMBDA x, y : At(a, x[2]) < At(a, y[2]))
               k == [i \in 1..Len(q) |-> [n |-> q[i][1], v |-> At(a, q[i][2])]]
           IN r = IF n % 2 = 1 THEN 2 * At(k, (n + 1) \div 2) ELSE At(k, n \div 2) + At(k, n \div 2 + 1)
=============================================================================
