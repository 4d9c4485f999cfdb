------------------------------ MODULE ExportCheck ------------------------------
(* Judges recorded exports and runs of the programs with Export. *)
EXTENDS Export, Json, IOUtils
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
W == 64
If(b, s) == IF b THEN {s} ELSE {}
Dat(m, hs, u, t) == IF "rows" \notin DOMAIN t THEN {"not written as text"} ELSE If(~HeaderOK(m, t.head), "header") \cup If(~RowsOK(hs, u, t.rows), "rows")
Prints(hs, t) == IF "lines" \notin DOMAIN t THEN {"not printed"} ELSE If(t.count /= Len(hs), "count") \cup If(Len(t.lines) /= Len(hs) \/ \E j \in DOMAIN hs : ~PrintOK(hs[j], t.lines[j]), "printed hits")
Verdict(c) ==
    CASE c.kind = "dat" -> IF c.exc /= "" THEN {"failed: " \o c.exc} ELSE Dat(c.md, c.hits, c.u, c.text)
      [] c.kind = "write" -> If(c.seen /= WriteFormat(c.fmt, c.path), "written as " \o c.seen)
      [] c.kind = "read" -> If(c.exc /= ReadOutcome(c.fmt), "reading: " \o c.exc)
      [] c.kind = "convert" -> LET w == ConvertedTo(c.out, c.stem) IN
            If(c.rc /= 0, "exit status") \cup If(c.names /= (IF w.form = "print" THEN <<>> ELSE <<w.place>>), "files")
            \cup (IF c.rc /= 0 THEN {} ELSE IF w.form = "print" THEN Prints(c.hits, c.text) ELSE Dat(c.md, c.hits, c.u, c.text))
      \* asked for help, or given an unusable command line: the usage, and nothing else
      [] c.kind = "usage" -> If(c.rc /= 0, "exit status") \cup If(c.names /= <<>>, "files") \cup If(~c.usage, "no usage shown") \cup If(c.hits, "ran all the same")
      [] c.kind = "pipe" -> LET all == Outputs(c.o, c.names)
                                \* a scan whose hits cannot be computed ends the run
                                fails == {j \in DOMAIN c.want : c.want[j].exc /= ""}
                                ends == Cardinality({j \in DOMAIN c.want : \A i \in fails : j < i})
                                w == SubSeq(all, 1, ends) IN
            If(fails = {} /\ c.rc /= 0, "exit status") \cup If(c.stages /= Stages(c.o), "the replay ran other stages") \cup If(c.error /= (fails /= {}), "error message")
            \cup If({c.files[j] : j \in DOMAIN c.files} /= {w[j].place : j \in DOMAIN w} \ {"-"}, "files")
            \cup (IF Len(c.got) /= Len(w) \/ Len(c.want) /= Len(all) THEN {"outputs"}
                  ELSE UNION {LET g == c.got[j] h == c.want[j] IN
                              IF g.form /= w[j].form THEN {"written as " \o g.form}
                              ELSE CASE g.form = "capnp" -> If(g.hits /= h.texts, "stored hits")
                                     [] g.form = "dat" -> Dat(h.md, h.hits, h.u, g.text)
                                     [] g.form = "print" -> Prints(h.hits, g.text) : j \in DOMAIN w})
Init == k \in 1..(IF W < N THEN W ELSE N)
Next == k + W <= N /\ k' = k + W
Spec == Init /\ [][Next]_k
Report == LET r == Verdict(Cases[k]) IN
          IF r = {} THEN PrintT(<<"DONE", k>>) ELSE PrintT(<<"BAD", k, r>>)
=============================================================================
