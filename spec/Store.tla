-------------------------------- MODULE Store --------------------------------
(* Result files: objects with hits are written to files and read back.        *)
(* A hit is [id, rfi]: id stands for all its fields that files hold, rfi tells *)
(* whether it has its interference counts, which they do not.  A channel is    *)
(* [s, i, x, has, hits]: channel i of source s, x tells whether it has the     *)
(* metadata that files do not hold.                                          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Names
VARIABLES ob,     \* objects by name: [kind, v]
          files,  \* files by number: [kind, ok, v]
          res
vars == <<ob, files, res>>
SrcName(s) == Names[s]
\* ---- what a file keeps
StoredHit(h) == [h EXCEPT !.rfi = FALSE]
StoredHits(l) == [j \in DOMAIN l |-> StoredHit(l[j])]
StoredChan(c) == [c EXCEPT !.x = FALSE, !.hits = StoredHits(@)]
StoredScan(s) == [s EXCEPT !.x = FALSE, !.chs = [j \in DOMAIN @ |-> StoredChan(@[j])]]
StoredTarget(t) == [t EXCEPT !.scans = [j \in DOMAIN @ |-> StoredScan(@[j])]]
Stored(o) == CASE o.kind = "hits"    -> StoredHits(o.v)
               [] o.kind = "cc"      -> StoredChan(o.v)
               [] o.kind = "scan"    -> StoredScan(o.v)
               [] o.kind = "target"  -> StoredTarget(o.v)
               [] o.kind = "cadence" -> [j \in DOMAIN o.v |-> StoredTarget(o.v[j])]
               [] o.kind = "events"  -> [j \in DOMAIN o.v |-> StoredHits(o.v[j])]
\* channels that were never searched cannot be written
ScanHas(s) == \A j \in DOMAIN s.chs : s.chs[j].has
Writable(o) == CASE o.kind \in {"hits", "events"} -> TRUE
                 [] o.kind = "cc"      -> o.v.has
                 [] o.kind = "scan"    -> ScanHas(o.v)
                 [] o.kind = "target"  -> \A j \in DOMAIN o.v.scans : ScanHas(o.v.scans[j])
                 [] o.kind = "cadence" -> \A i \in DOMAIN o.v : \A j \in DOMAIN o.v[i].scans : ScanHas(o.v[i].scans[j])
\* ---- making objects
Hits(l) == [j \in DOMAIN l |-> [id |-> l[j], rfi |-> TRUE]]
Chan(s, i, has, l) == [s |-> s, i |-> i, x |-> TRUE, has |-> has, hits |-> IF has THEN Hits(l) ELSE <<>>]
\* m: the number of the channel without hits, or 0
Chans(s, ll, m) == [j \in DOMAIN ll |-> Chan(s, j - 1, j /= m, ll[j])]
RECURSIVE NameOf(_, _)
NameOf(l, so) == IF l = <<>> THEN IF so = "" THEN "unknown" ELSE so
                 ELSE LET n == SrcName(l[1].s) IN NameOf(Tail(l), IF so = "" THEN n ELSE IF n = "" \/ n = so THEN so ELSE so \o "::" \o n)
Target(l) == [name |-> NameOf(l, ""), scans |-> l]
Ok == [exc |-> ""]
Bind(d, kind, v) == ob' = (d :> [kind |-> kind, v |-> v]) @@ ob /\ res' = Ok /\ UNCHANGED files
Fail(x) == res' = [exc |-> x]
Is(n, kind) == n \in DOMAIN ob /\ ob[n].kind = kind
Apply(c) ==
    CASE c.op = "hits"    -> Bind(c.d, "hits", Hits(c.l))
      [] c.op = "events"  -> Bind(c.d, "events", [j \in DOMAIN c.ll |-> Hits(c.ll[j])])
      [] c.op = "cc"      -> Bind(c.d, "cc", Chan(c.s, c.n, c.m = 0, c.l))
      [] c.op \in {"scan", "h5scan"} -> Bind(c.d, "scan", [s |-> c.s, start |-> 0, x |-> TRUE, chs |-> Chans(c.s, c.ll, c.m)])
      [] c.op = "slice"   -> /\ Is(c.a, "scan") /\ c.n >= 0 /\ c.m >= 1 /\ c.n + c.m <= Len(ob[c.a].v.chs)
                             /\ Bind(c.d, "scan", [ob[c.a].v EXCEPT !.start = @ + c.n, !.chs = SubSeq(@, c.n + 1, c.n + c.m)])
      [] c.op = "target"  -> (\A j \in DOMAIN c.l : Is(c.l[j], "scan")) /\ Bind(c.d, "target", Target([j \in DOMAIN c.l |-> ob[c.l[j]].v]))
      [] c.op = "cadence" -> (\A j \in DOMAIN c.l : Is(c.l[j], "target")) /\ Bind(c.d, "cadence", [j \in DOMAIN c.l |-> ob[c.l[j]].v])
      [] c.op = "pick"    -> /\ c.a \in DOMAIN ob
                             /\ LET o == ob[c.a] IN
                                (CASE o.kind = "scan"    -> c.n \in DOMAIN o.v.chs /\ Bind(c.d, "cc", o.v.chs[c.n])
                                  [] o.kind = "target"  -> c.n \in DOMAIN o.v.scans /\ Bind(c.d, "scan", o.v.scans[c.n])
                                  [] o.kind = "cadence" -> c.n \in DOMAIN o.v /\ Bind(c.d, "target", o.v[c.n])
                                  [] OTHER -> FALSE)
      \* hits remade from their saved states
      [] c.op = "state"   -> Is(c.a, "hits") /\ Bind(c.d, "hits", StoredHits(ob[c.a].v))
      [] c.op = "get"     -> c.a \in DOMAIN ob /\ res' = [exc |-> "", kind |-> ob[c.a].kind, v |-> ob[c.a].v] /\ UNCHANGED <<ob, files>>
      \* path 0 is in no directory
      [] c.op = "save"    -> /\ c.a \in DOMAIN ob /\ UNCHANGED ob
                             /\ LET o == ob[c.a] IN
                                IF c.n = 0 THEN Fail("runtime_error") /\ UNCHANGED files
                                ELSE IF Writable(o) THEN res' = Ok /\ files' = (c.n :> [kind |-> o.kind, ok |-> TRUE, v |-> Stored(o)]) @@ files
                                ELSE Fail("logic_error") /\ files' = (c.n :> [kind |-> o.kind, ok |-> FALSE, v |-> <<>>]) @@ files
      [] c.op = "load"    -> IF c.n \notin DOMAIN files THEN Fail("runtime_error") /\ UNCHANGED <<ob, files>>
                             ELSE IF ~files[c.n].ok THEN Fail("some") /\ UNCHANGED <<ob, files>>
                             ELSE c.kind = files[c.n].kind /\ Bind(c.d, c.kind, files[c.n].v)
\* ---- what always holds
Kinds == {"hits", "events", "cc", "scan", "target", "cadence"}
\* a second round trip changes nothing, and anything read can be written again
Idempotent == \A n \in DOMAIN ob : Writable(ob[n]) => Stored([ob[n] EXCEPT !.v = Stored(ob[n])]) = Stored(ob[n])
ReadIsWritable == \A n \in DOMAIN files : files[n].ok => Writable(files[n]) /\ Stored(files[n]) = files[n].v
\* files keep every hit in its place
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Ids(l) == [j \in DOMAIN l |-> l[j].id]
ScanIds(s) == Flat([j \in DOMAIN s.chs |-> Ids(s.chs[j].hits)])
KindIds(kind, v) ==
    CASE kind = "hits"    -> Ids(v)
      [] kind = "events"  -> Flat([j \in DOMAIN v |-> Ids(v[j])])
      [] kind = "cc"      -> Ids(v.hits)
      [] kind = "scan"    -> ScanIds(v)
      [] kind = "target"  -> Flat([j \in DOMAIN v.scans |-> ScanIds(v.scans[j])])
      [] kind = "cadence" -> Flat([i \in DOMAIN v |-> Flat([j \in DOMAIN v[i].scans |-> ScanIds(v[i].scans[j])])])
KeepsHits == \A n \in DOMAIN ob : KindIds(ob[n].kind, Stored(ob[n])) = KindIds(ob[n].kind, ob[n].v)
\* channels stay those of their scan
InPlace == \A n \in DOMAIN ob : ob[n].kind = "scan" =>
    \A j \in DOMAIN ob[n].v.chs : ob[n].v.chs[j].s = ob[n].v.s /\ ob[n].v.chs[j].i = ob[n].v.start + j - 1
=============================================================================
