------------------------------ MODULE RunsCheck ------------------------------
(* Judges recorded operations on large arrays. *)
EXTENDS Runs, Json, IOUtils
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
W == 64
If(b, x) == IF b THEN {x} ELSE {}
A(c) == c.ops[1]
B(c) == c.ops[2]
Result(c, shape, dt, E, F(_)) ==
    LET r == c.obs.r IN
    IF r.shape /= shape THEN {"shape of the result"}
    ELSE If(r.dt /= dt, "type of the result") \cup If(~Elementwise(r.runs, E, Numel(shape), F), "values of the result")
\* groups of a reduction over all axes, or over the last of two: the elements are next to each other
Groups(c) ==
    LET sh == A(c).shape n == Numel(sh)
    IN IF c.axes = <<1>> /\ Len(sh) = 2 THEN [i \in 1..sh[1] |-> <<(i - 1) * sh[2] + 1, i * sh[2]>>] ELSE <<<<1, n>>>>
Mask(c) == IF c.masked = 1 THEN B(c).runs ELSE <<[n |-> Numel(A(c).shape), v |-> 0]>>
Reduced(c) ==
    LET g == Groups(c) r == c.obs.r IN
    IF r.shape /= (IF c.axes = <<1>> /\ Len(A(c).shape) = 2 THEN <<A(c).shape[1]>> ELSE <<1>>) THEN {"shape of the result"}
    ELSE If(\E i \in 1..Len(g) : ~StatOK(c.op, A(c).runs, Unflagged(A(c).runs, Mask(c), g[i][1], g[i][2]), At(r.runs, i)), "value of the statistic")
Check(c) ==
    IF c.obs.exc /= "" THEN {"rejected: " \o c.obs.exc}
    ELSE LET a == A(c).runs sh == A(c).shape dt == A(c).dt E == EndSet(a) IN
    If(\E j \in 1..Len(c.ops) : ~Elementwise(c.obs.after[j], EndSet(c.ops[j].runs), Numel(c.ops[j].shape), LAMBDA p : At(c.ops[j].runs, p)), "an operand changed") \cup
    CASE c.kind = "bin"  -> Result(c, sh, dt, E \cup EndSet(B(c).runs), LAMBDA p : Stored(Binary(c.op, At(a, p), At(B(c).runs, p)), dt))
      [] c.kind = "scal" -> Result(c, sh, dt, E, LAMBDA p : Stored(Binary(c.op, At(a, p), c.s), dt))
      [] c.kind = "un"   -> Result(c, sh, dt, E, LAMBDA p : CASE c.op = "square" -> Stored(At(a, p) * At(a, p), dt) [] c.op = "abs" -> 8 * Abs(At(a, p)) [] c.op = "copy" -> 8 * At(a, p))
      [] c.kind = "cmp"  -> Result(c, sh, "b", E \cup EndSet(B(c).runs), LAMBDA p : 64 * Rel(c.op, At(a, p), At(B(c).runs, p)))
      [] c.kind = "cmps" -> Result(c, sh, "b", E, LAMBDA p : 64 * Rel(c.op, At(a, p), c.s))
      [] c.kind = "count" -> If(c.obs.n /= SumSeq([i \in 1..Len(a) |-> IF a[i].v = 0 THEN 0 ELSE a[i].n]), "count")
      [] c.kind = "median" -> If(~StatOK("median", a, Parts(E, 1, Numel(sh)), c.obs.n), "median")
      [] c.kind = "red"  -> Reduced(c)
      [] c.kind = "file" -> Result(c, <<Numel(sh)>>, "f", E, LAMBDA p : 8 * At(a, p)) \cup If(c.obs.bytes /= 4 * Numel(sh), "size of the file")
      [] c.kind = "range" ->      \* observed: the first element and the runs of differences of neighbours
           If(c.obs.r.shape /= <<c.count>>, "shape of the result")
           \cup If(c.obs.first /= 8 * c.start \/ ~Elementwise(c.obs.r.runs, {}, c.count - 1, LAMBDA p : 8 * c.step), "values of the result")
Init == k \in 1..(IF W < N THEN W ELSE N)
Next == k + W <= N /\ k' = k + W
Spec == Init /\ [][Next]_k
Report == LET r == Check(Cases[k]) IN
          IF r = {} THEN PrintT(<<"DONE", k>>) ELSE PrintT(<<"BAD", k, r>>)
=============================================================================
