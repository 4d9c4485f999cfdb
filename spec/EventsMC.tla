------------------------------- MODULE EventsMC -------------------------------
(* Every arrangement of a few hits in a small cadence.                       *)
EXTENDS Events
CONSTANTS NOn, MaxHits, Freqs, Drifts
VARIABLE all       \* the ON hits at the outset
Kinds == Freqs \X Drifts
Lists(n) == UNION {[1..m -> Kinds] : m \in 0..n}
Hit(id, t, x) == [id |-> id, f |-> x[1], t |-> t, u |-> 10, d |-> x[2], p |-> 1, s |-> 1, b |-> 1]
Init == /\ \E q \in [1..NOn -> Lists(MaxHits)] : on = [j \in 1..NOn |-> [i \in DOMAIN q[j] |-> Hit(10 * j + i, 20 * j, q[j][i])]]
        /\ \E q \in Lists(1) : offs = [i \in DOMAIN q |-> Hit(90 + i, 30, q[i])]
        /\ si = 1 /\ hi = 1 /\ ms = 0 /\ ev = <<>> /\ events = <<>> /\ all = on
Spec == Init /\ [][Next /\ UNCHANGED all]_<<vars, all>>
ScanOf(h) == h.id \div 10
Ids(e) == {e.hits[j].id : j \in DOMAIN e.hits}
\* events: hits of different ON scans in order, each near to an earlier one, no OFF hit near, no hit in two events
Several == \A n \in DOMAIN events : LET h == events[n].hits IN
    /\ Len(h) >= 2 /\ \A j \in 1..(Len(h) - 1) : ScanOf(h[j]) < ScanOf(h[j + 1])
    /\ \A j \in 2..Len(h) : \E i \in 1..(j - 1) : Distance(h[i], h[j]) < Limit
Unseen == \A n \in DOMAIN events : ~Near(events[n].hits, 0)
Once == \A n, m \in DOMAIN events : n = m \/ Ids(events[n]) \cap Ids(events[m]) = {}
\* two ON hits near to each other and to no other ON hit, with no OFF hit near, are reported
Flat == (1..NOn) \X (1..MaxHits)
Hits == {all[x[1]][x[2]] : x \in {y \in Flat : y[2] <= Len(all[y[1]])}}
Reported == Finished => \A a \in Hits : \A b \in {x \in Hits : ScanOf(a) < ScanOf(x)} :
    (/\ Distance(a, b) < Limit /\ ~Near(<<a, b>>, 0)
     /\ \A x \in Hits \ {a, b} : Distance(a, x) >= Limit /\ Distance(b, x) >= Limit)
    => \E n \in DOMAIN events : Ids(events[n]) = {a.id, b.id}
=============================================================================
