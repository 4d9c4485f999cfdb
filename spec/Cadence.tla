------------------------------- MODULE Cadence -------------------------------
(* Observation targets (sequences of scans) and cadences (sequences of       *)
(* targets).  They hold copies of the scans they were made from.  They are   *)
(* consistent when all their scans agree on first frequency, channel width   *)
(* and number of channels; slicing one slices every scan the same way.       *)
EXTENDS Scan
VARIABLES tg,                     \* targets: name -> [name, scans]
          ks                      \* cadences: name -> sequence of targets
cvars == <<srcs, sc, res, tg, ks>>

\* sources additionally have base and w: first frequency and channel width in tenths of a Hz, and a name
First(x) == srcs[x.src].base + FirstOf(x, 0) * srcs[x.src].w
Width(x) == srcs[x.src].w
\* agreement to within one Hz with the first of them
Agree(x, y) == Abs(First(x) - First(y)) <= 10 /\ Abs(Width(x) - Width(y)) <= 10 /\ x.nch = y.nch
ConsistentSeq(q) == \A j \in 1..Len(q) : Agree(q[j], q[1])
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flatten(Tail(q))
AllScans(k) == Flatten([j \in 1..Len(k) |-> k[j].scans])

\* the name of a target: the name its scans share, all of them joined if they differ
RECURSIVE Joined(_, _)
Joined(names, acc) ==
    IF names = <<>> THEN IF acc = "" THEN "unknown" ELSE acc
    ELSE Joined(Tail(names), IF Head(names) = "" \/ Head(names) = acc THEN acc
                             ELSE IF acc = "" THEN Head(names) ELSE acc \o "::" \o Head(names))
TargetOf(scans) == [name |-> Joined([j \in 1..Len(scans) |-> srcs[scans[j].src].name], ""), scans |-> scans]

SliceScan(x, start, count) ==
    LET n == IF count = -1 THEN x.n - start ELSE count
    IN [x EXCEPT !.off = @ + start, !.n = n, !.nch = n * x.fine]
SliceTarget(t, start, count) == [t EXCEPT !.scans = [j \in DOMAIN @ |-> SliceScan(@[j], start, count)]]
CanSlice(q, start, count) == \A j \in 1..Len(q) : start \in 0..(q[j].n - 1) /\ (count = -1 \/ (count >= 1 /\ start + count <= q[j].n))

BindT(d, t) == tg' = (d :> t) @@ tg /\ res' = Ok /\ UNCHANGED <<srcs, sc, ks>>
BindK(d, k) == ks' = (d :> k) @@ ks /\ res' = Ok /\ UNCHANGED <<srcs, sc, tg>>
Says(v) == res' = [exc |-> "", v |-> v] /\ UNCHANGED <<srcs, sc, tg, ks>>
Refuses == res' = [exc |-> "runtime_error"] /\ UNCHANGED <<srcs, sc, tg, ks>>

ScanOps == {"open", "handle", "slice", "read", "peek", "tf", "freq", "info", "device", "push", "drop"}
ApplyC(c) ==
    CASE c.op \in ScanOps -> Apply(c) /\ UNCHANGED <<tg, ks>>
      [] c.op = "target"  -> (\A j \in 1..Len(c.l) : c.l[j] \in Live) /\ BindT(c.d, TargetOf([j \in 1..Len(c.l) |-> sc[c.l[j]]]))
      [] c.op = "cadence" -> (\A j \in 1..Len(c.l) : c.l[j] \in DOMAIN tg) /\ BindK(c.d, [j \in 1..Len(c.l) |-> tg[c.l[j]]])
      [] c.op = "tslice"  -> c.a \in DOMAIN tg /\ CanSlice(tg[c.a].scans, c.n, c.m) /\ BindT(c.d, SliceTarget(tg[c.a], c.n, c.m))
      [] c.op = "kslice"  -> c.a \in DOMAIN ks /\ CanSlice(AllScans(ks[c.a]), c.n, c.m)
                             /\ BindK(c.d, [j \in DOMAIN ks[c.a] |-> SliceTarget(ks[c.a][j], c.n, c.m)])
      [] c.op = "tvalid"  -> c.a \in DOMAIN tg /\ Says(IF ConsistentSeq(tg[c.a].scans) THEN 1 ELSE 0)
      [] c.op = "kvalid"  -> c.a \in DOMAIN ks /\ Says(IF ConsistentSeq(AllScans(ks[c.a])) THEN 1 ELSE 0)
      [] c.op = "tncoarse" -> /\ c.a \in DOMAIN tg /\ tg[c.a].scans /= <<>>
                              /\ IF ConsistentSeq(tg[c.a].scans) THEN Says(tg[c.a].scans[1].n) ELSE Refuses
      [] c.op = "kncoarse" -> LET q == AllScans(ks[c.a]) IN
                              c.a \in DOMAIN ks /\ IF q /= <<>> /\ ConsistentSeq(q) THEN Says(q[1].n) ELSE Refuses
      [] c.op = "tfreq"   -> /\ c.a \in DOMAIN tg /\ tg[c.a].scans /= <<>>
                             /\ IF ConsistentSeq(tg[c.a].scans) THEN Says(Lookup(tg[c.a].scans[1], c.n)) ELSE Refuses
      [] c.op = "kfreq"   -> LET q == AllScans(ks[c.a]) IN
                             /\ c.a \in DOMAIN ks /\ q /= <<>>
                             /\ IF ConsistentSeq(q) THEN Says(Lookup(q[1], c.n)) ELSE Refuses
      [] c.op = "tname"   -> c.a \in DOMAIN tg /\ Says(<<tg[c.a].name, Len(tg[c.a].scans)>>)
      [] c.op = "kcount"  -> c.a \in DOMAIN ks /\ Says([j \in DOMAIN ks[c.a] |-> Len(ks[c.a][j].scans)])
      [] c.op = "tscan"   -> /\ c.a \in DOMAIN tg /\ c.n \in 0..(Len(tg[c.a].scans) - 1)
                             /\ sc' = (c.d :> tg[c.a].scans[c.n + 1]) @@ sc /\ res' = Ok /\ UNCHANGED <<srcs, tg, ks>>
      [] c.op = "ktarget" -> c.a \in DOMAIN ks /\ c.n \in 0..(Len(ks[c.a]) - 1) /\ BindT(c.d, ks[c.a][c.n + 1])

\* ---- what always holds -----------------------------------------------------------
\* a slice of consistent scans is consistent when their widths are equal, has the same number of scans in the same order
SliceKeepsConsistency ==
    \A t \in DOMAIN tg : \A st \in 0..2 :
        LET q == tg[t].scans IN
        (q /= <<>> /\ ConsistentSeq(q) /\ (\A j \in 1..Len(q) : Width(q[j]) = Width(q[1]) /\ q[j].fine = q[1].fine) /\ CanSlice(q, st, -1))
            => /\ ConsistentSeq(SliceTarget(tg[t], st, -1).scans)
               /\ \A j \in 1..Len(q) : SliceTarget(tg[t], st, -1).scans[j].src = q[j].src
\* calls on targets and cadences never touch scans, and a change to a scan never reaches a target made from it
Separate == [][(sc' /= sc => tg' = tg /\ ks' = ks) /\ (tg' /= tg => ks' = ks)]_cvars
=============================================================================
