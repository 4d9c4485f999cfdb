-------------------------------- MODULE Arr --------------------------------
(* Arithmetic of shapes: row-major indexing, slices, broadcasting and axis   *)
(* reductions.  Axes are numbered from 0, as in the library; positions in a  *)
(* flattened array are numbered from 1, as TLA+ sequences are.               *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Numel(shape) == ProdSeq(shape)
Stride(shape, d) == ProdSeq(SubSeq(shape, d + 1, Len(shape)))   \* d from 1
\* coordinate (a sequence) of the n-th element, n from 0
Coord(shape, n) == [d \in 1..Len(shape) |-> (n \div Stride(shape, d)) % shape[d]]
Flat(shape, c) == SumSeq([d \in 1..Len(shape) |-> c[d] * Stride(shape, d)])

ShapeOK(shape) == \A d \in 1..Len(shape) : shape[d] >= 0

\* ---- slicing of one axis -------------------------------------------------
FromEnd(x, size) == IF x < 0 THEN size + x ELSE x
SliceStart(size, s) == FromEnd(s, size)
SliceEnd(size, e) == IF e < 0 THEN size + e ELSE IF e > size THEN size ELSE e
\* what the caller is told
SliceOutcome(size, s, e) ==
    IF s >= 0 /\ s > size THEN "out_of_range"
    ELSE IF SliceEnd(size, e) < SliceStart(size, s) THEN "runtime_error"
    ELSE ""
SliceLen(size, s, e, st) == (SliceEnd(size, e) - SliceStart(size, s)) \div st
SliceShape(shape, dim, s, e, st) == [shape EXCEPT ![dim + 1] = SliceLen(shape[dim + 1], s, e, st)]
\* sequence of the positions (from 1) of the elements the slice selects, in the slice's own order
SlicePos(shape, dim, s, e, st) ==
    LET ns == SliceShape(shape, dim, s, e, st)
        a  == SliceStart(shape[dim + 1], s)
    IN [n \in 1..Numel(ns) |->
          LET c == Coord(ns, n - 1)
          IN 1 + Flat(shape, [c EXCEPT ![dim + 1] = a + st * c[dim + 1]])]

\* ---- broadcasting --------------------------------------------------------
\* right-aligned: missing leading axes count as 1
DimAt(shape, nd, d) == IF d + Len(shape) - nd >= 1 THEN shape[d + Len(shape) - nd] ELSE 1
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Compatible(sa, sb) ==
    LET nd == Max2(Len(sa), Len(sb))
    IN \A d \in 1..nd : LET x == DimAt(sa, nd, d) y == DimAt(sb, nd, d) IN x = y \/ x = 1 \/ y = 1
BroadcastShape(sa, sb) ==
    LET nd == Max2(Len(sa), Len(sb))
    IN [d \in 1..nd |-> LET x == DimAt(sa, nd, d) y == DimAt(sb, nd, d) IN IF x = 1 THEN y ELSE x]
\* position in the operand of shape sh of the n-th element (n from 1) of the result of shape out
OperandPos(out, sh, n) ==
    LET c == Coord(out, n - 1)
        k == Len(out) - Len(sh)
    IN 1 + Flat(sh, [d \in 1..Len(sh) |-> IF sh[d] = 1 THEN 0 ELSE c[d + k]])

\* ---- reductions ----------------------------------------------------------
\* axes: a set of axis numbers from 0; the empty set reduces every axis
KeptAxes(shape, axes) ==
    IF axes = {} THEN <<>> ELSE SelectSeq([d \in 1..Len(shape) |-> d], LAMBDA d : (d - 1) \notin axes)
ReducedShape(shape, axes) ==
    LET k == KeptAxes(shape, axes) IN IF k = <<>> THEN <<1>> ELSE [j \in 1..Len(k) |-> shape[k[j]]]
\* the positions of the input that reduce to the m-th output element, in row-major order
Group(shape, axes, m) ==
    LET k  == KeptAxes(shape, axes)
        oc == IF k = <<>> THEN <<>> ELSE Coord(ReducedShape(shape, axes), m - 1)
    IN SelectSeq([n \in 1..Numel(shape) |-> n],
                 LAMBDA n : LET c == Coord(shape, n - 1) IN \A j \in 1..Len(k) : c[k[j]] = oc[j])
=============================================================================
