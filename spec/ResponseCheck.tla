--------------------------- MODULE ResponseCheck ---------------------------
(* Judges power spectra, filters and channel responses of the implementation *)
EXTENDS Response, Json, IOUtils
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
W == 64
If(b, x) == IF b THEN {x} ELSE {}
Verdict(c) ==
    IF c.exc /= "" THEN IF c.kind = "reject" THEN {} ELSE {"failed: " \o c.exc}
    ELSE CASE c.kind = "reject" -> {"an array that is not single precision was transformed"}
           [] c.kind = "spectrum" -> If(~IsSpectrum(c.v, c.x), "spectrum") \cup If(c.after /= c.x, "the signal changed")
           [] c.kind = "filter" -> If(~IsFilter(c.v, c.taps, c.p, c.q), "filter")
           [] c.kind = "response" -> If(~IsResponse(c.v, c.fine, c.coarse, c.per), "response") \cup If(c.bytes /= 4 * c.fine, "file size")
Init == k \in 1..(IF W < N THEN W ELSE N)
Next == k + W <= N /\ k' = k + W
Spec == Init /\ [][Next]_k
Report == LET r == Verdict(Cases[k]) IN
          IF r = {} THEN PrintT(<<"DONE", k>>) ELSE PrintT(<<"BAD", k, r>>)
=============================================================================
