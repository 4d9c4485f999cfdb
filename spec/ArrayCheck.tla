----------------------------- MODULE ArrayCheck -----------------------------
(* Judges recorded calls of the array library, one case per call. *)
EXTENDS ArrayOps, Json, IOUtils, SequencesExt
VARIABLE k
Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)
W == 64
If(b, x) == IF b THEN {x} ELSE {}
Result(c, shape, dt, v) ==            \* shape, type and values of the result
    LET r == c.obs.r IN
    IF c.obs.exc /= "" THEN {"rejected: " \o c.obs.exc}
    ELSE IF r.shape /= shape THEN {"shape of the result"}
    ELSE If(r.dt /= dt, "type of the result") \cup If(r.v /= v, "values of the result")
\* operands read back after the call, and after overwriting the result
Operands(c) ==
    If(\E j \in 1..Len(c.ops) : c.obs.after[j] /= c.ops[j].v, "an operand changed")
    \cup If(\E j \in 1..Len(c.ops) : c.obs.after2[j] /= c.ops[j].v, "the result shares storage with an operand")
Rejected(c, e) == IF c.obs.exc = e THEN {} ELSE {"expected to be rejected with " \o e}
A(c) == c.ops[1]
B(c) == c.ops[2]
Axes(c) == {c.axes[j] : j \in 1..Len(c.axes)}
\* a reduction: v judged element by element with OK(group, observed value)
Reduction(c, m, OK(_, _)) ==
    LET sh == ReducedShape(A(c).shape, Axes(c))
        r  == c.obs.r
        G(j) == Unmasked(Group(A(c).shape, Axes(c), j), m)
    IN IF \E j \in 1..Numel(sh) : G(j) = <<>> THEN Rejected(c, "runtime_error")
       ELSE IF c.obs.exc /= "" THEN {"rejected: " \o c.obs.exc}
       ELSE IF r.shape /= (IF "outshape" \in DOMAIN c THEN c.outshape ELSE sh) THEN {"shape of the result"}
       ELSE If(\E j \in 1..Numel(sh) : ~OK(G(j), r.v[j]), "value of the statistic")
NoMask(c) == [n \in 1..Len(A(c).v) |-> 0]
Stat(op, v, g, x) ==
    CASE Abs(x) > 50000000 -> FALSE      \* far beyond any statistic of the values generated
      [] op = "sum"    -> x = SumV(v, g)
      [] op = "max"    -> x = MaxV(v, g)
      [] op = "mean"   -> MeanOK(v, g, x, 1000)
      [] op = "stddev" -> StdOK(v, g, x)
      [] op = "var"    -> VarOK(v, g, x)
Check(c) ==
    CASE c.kind = "bin" ->
           IF Compatible(A(c).shape, B(c).shape)
           THEN Result(c, BroadcastShape(A(c).shape, B(c).shape), A(c).dt, ExpectBinary(c.op, A(c), B(c))) \cup Operands(c)
           ELSE Rejected(c, "invalid_argument") \cup Operands(c)
      [] c.kind = "scal"  -> Result(c, A(c).shape, A(c).dt, ExpectScalar(c.op, A(c), c.s)) \cup Operands(c)
      [] c.kind = "rscal" -> Result(c, A(c).shape, A(c).dt, ExpectScalarLeft(c.op, c.s, A(c))) \cup Operands(c)
      [] c.kind = "un"    ->
           LET r == c.obs.r IN
           IF c.obs.exc /= "" THEN {"rejected: " \o c.obs.exc}
           ELSE IF r.shape /= A(c).shape THEN {"shape of the result"}
           ELSE If(r.dt /= A(c).dt, "type of the result")
                \cup If(\E n \in 1..Len(r.v) : ~UnaryOK(c.op, A(c).v[n], r.v[n], A(c).dt), "values of the result")
                \cup Operands(c)
      [] c.kind = "unout" ->       \* into a view of a larger array: base is that array before, c.pos the view's elements
           LET P == {c.pos[j] : j \in 1..Len(c.pos)}
           IN IF c.obs.exc /= "" THEN {"rejected: " \o c.obs.exc}
              ELSE IF Len(c.obs.base) /= Len(c.base) THEN {"shape of the output"}
              ELSE If(\E p \in (1..Len(c.base)) \ P : c.obs.base[p] /= 8 * c.base[p], "an element outside the output view changed")
                   \cup If(\E n \in 1..Len(c.pos) : ~UnaryOK(c.op, A(c).v[OperandPos(c.outshape, A(c).shape, n)], c.obs.base[c.pos[n]], c.outdt),
                           "values of the output")
                   \cup Operands(c)
      [] c.kind = "cmp"   ->
           IF Compatible(A(c).shape, B(c).shape)
           THEN Result(c, BroadcastShape(A(c).shape, B(c).shape), "b", ExpectCompare(c.op, A(c), B(c))) \cup Operands(c)
           ELSE Rejected(c, "invalid_argument") \cup Operands(c)
      [] c.kind = "cmps"  -> Result(c, A(c).shape, "b", ExpectCompareScalar(c.op, A(c), c.s)) \cup Operands(c)
      [] c.kind = "rcmps" -> Result(c, A(c).shape, "b", ExpectCompareScalarLeft(c.op, c.s, A(c))) \cup Operands(c)
      [] c.kind = "slice" ->      \* a copy of the elements a slice of one axis keeps
           LET q == c.spec
               o == SliceOutcome(A(c).shape[q[1] + 1], q[2], q[3])
               p == SlicePos(A(c).shape, q[1], q[2], q[3], q[4])
           IN (IF o /= "" THEN Rejected(c, o)
               ELSE Result(c, SliceShape(A(c).shape, q[1], q[2], q[3], q[4]), A(c).dt, [n \in 1..Len(p) |-> A(c).v[p[n]]])) \cup Operands(c)
      [] c.kind = "count" -> (IF c.obs.exc /= "" THEN {"rejected: " \o c.obs.exc} ELSE If(c.obs.n /= CountTrue(A(c)), "count")) \cup Operands(c)
      [] c.kind = "red"   -> Reduction(c, NoMask(c), LAMBDA g, x : Stat(c.op, A(c).v, g, x)) \cup Operands(c)
      [] c.kind = "redout" ->     \* into a caller's view of a larger array
           LET P == {c.pos[j] : j \in 1..Len(c.pos)}
               sh == ReducedShape(A(c).shape, Axes(c))
               m  == IF Len(c.ops) > 1 THEN B(c).v ELSE NoMask(c)
               G(j) == Unmasked(Group(A(c).shape, Axes(c), j), m)
           IN IF \E j \in 1..Numel(sh) : G(j) = <<>> THEN Rejected(c, "runtime_error")
              ELSE IF c.obs.exc /= "" THEN {"rejected: " \o c.obs.exc}
              ELSE If(\E p \in (1..Len(c.base)) \ P : c.obs.base[p] /= c.scale * c.base[p], "an element outside the output view changed")
                   \cup If(\E j \in 1..Numel(sh) : ~Stat(c.op, A(c).v, G(j), c.obs.base[c.pos[j]]), "value of the statistic")
                   \cup Operands(c)
      [] c.kind = "both"  ->      \* mean and deviation together
           Reduction([c EXCEPT !.obs = [@ EXCEPT !.r = c.obs.r1]], c.m, LAMBDA g, x : Stat("mean", A(c).v, g, x))
           \cup Reduction([c EXCEPT !.obs = [@ EXCEPT !.r = c.obs.r2]], c.m, LAMBDA g, x : Stat("stddev", A(c).v, g, x))
           \cup Operands(c)
      [] c.kind = "mred"  ->
           IF A(c).shape /= B(c).shape THEN Rejected(c, "runtime_error")
           ELSE Reduction(c, B(c).v, LAMBDA g, x : Stat(c.op, A(c).v, g, x)) \cup Operands(c)
      [] c.kind = "moment" -> Reduction(c, NoMask(c), LAMBDA g, x : MomentOK(A(c).v, g, c.degree, x)) \cup Operands(c)
      [] c.kind = "median" ->
           (IF c.obs.exc /= "" THEN {"rejected: " \o c.obs.exc} ELSE If(c.obs.n /= Median2(A(c).v), "median")) \cup Operands(c)
      [] c.kind = "file"  ->      \* written from a view, read back flat
           Result(c, <<Len(A(c).v)>>, "f", A(c).v) \cup Operands(c) \cup If(c.obs.bytes /= 4 * Len(A(c).v), "size of the file")
      [] c.kind = "arange" ->     \* start, step, count in eighths
           LET n == IF (c.stop - c.start) * c.step <= 0 THEN 0 ELSE (Abs(c.stop - c.start)) \div Abs(c.step)
           IN Result(c, <<n>>, c.dt, [j \in 1..n |-> c.start + (j - 1) * c.step])
      [] c.kind = "linspace" ->   \* count equally spaced values, the end not included; generated so that the step is a whole number of eighths
           Result(c, <<c.count>>, c.dt, [j \in 1..c.count |-> c.start + (j - 1) * ((c.stop - c.start) \div c.count)])
      [] c.kind = "const" -> Result(c, c.shape, c.dt, [j \in 1..Numel(c.shape) |-> c.s])
Init == k \in 1..Min2(W, N)
Next == k + W <= N /\ k' = k + W
Spec == Init /\ [][Next]_k
Report == LET r == Check(Cases[k]) IN
          IF r = {} THEN PrintT(<<"DONE", k>>) ELSE PrintT(<<"BAD", k, r>>)
=============================================================================
