------------------------------ MODULE ArrayOps ------------------------------
(* What every array operation of the library computes, element by element.   *)
(* Values are exact rationals held as integers: operands in eighths, results *)
(* in sixty-fourths, so that sums, differences, products and the quotients   *)
(* generated are integers here.                                              *)
EXTENDS Arr, Bitwise, TLC

Ints == {"i", "u", "b"}
Abs(x) == IF x < 0 THEN -x ELSE x
TruncDiv(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) /= (y < 0) THEN -q ELSE q
\* what storing the exact value r (in sixty-fourths) in an element of type dt leaves
Stored(r, dt) == IF dt \in Ints THEN 64 * TruncDiv(r, 64) ELSE r

Binary(op, x, y) ==
    CASE op = "add" -> 8 * (x + y)
      [] op = "sub" -> 8 * (x - y)
      [] op = "mul" -> x * y
      [] op = "div" -> TruncDiv(64 * x, y)
UnaryOK(op, x, r, dt) ==                \* x in eighths, r in sixty-fourths
    CASE op = "square" -> r = Stored(x * x, dt)
      [] op = "abs"    -> r = Stored(8 * Abs(x), dt)
      [] op = "copy"   -> r = Stored(8 * x, dt)
      [] op = "sqrt"   -> IF dt \in Ints
                          THEN LET q == r \div 64 IN r = 64 * q /\ q >= 0 /\ q < 10000 /\ 8 * q * q <= x /\ x < 8 * (q + 1) * (q + 1)
                          ELSE r >= 0 /\ r < 40000 /\ r * r = 512 * x
\* a value that is no number stands in no relation to any other
NoNumber == 1999999999
Holds(op, x, y) ==
    IF x = NoNumber \/ y = NoNumber THEN FALSE ELSE
    CASE op = "gt" -> x > y [] op = "ge" -> x >= y [] op = "lt" -> x < y [] op = "le" -> x <= y [] op = "eq" -> x = y

\* ---- whole-array meaning: an array here is [shape, dt, v] -------------------
ExpectBinary(op, a, b) ==
    LET out == BroadcastShape(a.shape, b.shape)
    IN [n \in 1..Numel(out) |-> Stored(Binary(op, a.v[OperandPos(out, a.shape, n)], b.v[OperandPos(out, b.shape, n)]), a.dt)]
ExpectScalar(op, a, s) == [n \in 1..Numel(a.shape) |-> Stored(Binary(op, a.v[n], s), a.dt)]
ExpectScalarLeft(op, s, a) == [n \in 1..Numel(a.shape) |-> Stored(Binary(op, s, a.v[n]), a.dt)]
Bit(b) == IF b THEN 1 ELSE 0
AndBits(x, y) == ((x \div 8) & (y \div 8)) % 256
Rel(op, x, y) == IF op = "and" THEN AndBits(x, y) ELSE Bit(Holds(op, x, y))
ExpectCompare(op, a, b) ==
    LET out == BroadcastShape(a.shape, b.shape)
    IN [n \in 1..Numel(out) |-> Rel(op, a.v[OperandPos(out, a.shape, n)], b.v[OperandPos(out, b.shape, n)])]
ExpectCompareScalar(op, a, s) == [n \in 1..Numel(a.shape) |-> Rel(op, a.v[n], s)]
ExpectCompareScalarLeft(op, s, a) == [n \in 1..Numel(a.shape) |-> Rel(op, s, a.v[n])]
CountTrue(a) == Cardinality({n \in 1..Len(a.v) : a.v[n] /= 0})

\* ---- statistics of a group of values (integers) ---------------------------
SumV(v, g) == SumSeq([j \in 1..Len(g) |-> v[g[j]]])
SumSq(v, g) == SumSeq([j \in 1..Len(g) |-> v[g[j]] * v[g[j]]])
MaxV(v, g) == CHOOSE x \in {v[g[j]] : j \in 1..Len(g)} : \A j \in 1..Len(g) : v[g[j]] <= x
\* n^2 times the (population) variance
NNVar(v, g) == Len(g) * SumSq(v, g) - SumV(v, g) * SumV(v, g)
\* r approximates sum/n, in units of 1/k: within one unit of rounding
MeanOK(v, g, r, k) == Abs(r * Len(g) - k * SumV(v, g)) <= Len(g)
\* r approximates the standard deviation in hundredths, within 2 of them
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == IF lo >= hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m - 1)
Hundredths(nnvar, n) == (100 * Isqrt(nnvar, 0, 40000)) \div n     \* lower bound, exact to 100/n
StdOK(v, g, r) == LET h == Hundredths(NNVar(v, g), Len(g)) IN r >= h - 3 /\ r <= h + (100 \div Len(g)) + 3
\* the variance in hundredths: relative tolerance of single-precision squares
VarOK(v, g, r) == LET e == NNVar(v, g) IN Abs((r \div 100) * Len(g) * Len(g) - e) <= Len(g) * Len(g) * 2 + e \div 1000
\* moments of the deviations from the mean, in units of the standard deviation (of n - 1), which no scale or offset changes;
\* deviations are counted in their greatest common divisor
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
RECURSIVE GcdOf(_, _)
GcdOf(d, j) == IF j = 0 THEN 0 ELSE Gcd(GcdOf(d, j - 1), Abs(d[j]))
Deviations(v, g) ==
    LET n == Len(g) s == SumV(v, g)
        d == TLCEval([j \in 1..n |-> n * v[g[j]] - s])
        q == GcdOf(d, n)
    IN IF q = 0 THEN d ELSE TLCEval([j \in 1..n |-> d[j] \div q])
Powers(d, k) == SumSeq([j \in 1..Len(d) |-> d[j] ^ k])
\* the first k digits of x / y after the point
RECURSIVE Digits(_, _, _)
Digits(x, y, k) == IF k = 0 THEN x \div y ELSE (10 ^ k) * (x \div y) + Digits((x % y) * 10, y, k - 1)
\* r, in thousandths, is the moment
MomentOK(v, g, degree, r) ==
    LET d == Deviations(v, g) n == Len(g) s2 == Powers(d, 2) s3 == Powers(d, 3) IN
    IF n = 1 THEN TRUE
    ELSE CASE s2 = 0 -> r = 0
           [] degree = 1 -> Abs(r) <= 1
           [] degree = 2 -> Abs(r - 1000) <= 1
           [] degree = 3 -> /\ r * s3 > 0 \/ Abs(r) <= 3
                            /\ Abs(r) < 40000 /\ Abs((r * r) \div 1000 - Digits(s3 * s3 * (n - 1), s2 * s2 * s2, 3)) <= 3 + Abs(r) \div 200
           [] degree = 4 -> Abs(r - Digits(Powers(d, 4) * (n - 1), s2 * s2, 3)) <= 2 + Abs(r) \div 2000
SortedSeq(v) == SortSeq(v, LAMBDA a, b : a < b)
Median2(v) ==       \* twice the median
    LET s == SortedSeq(v) n == Len(v)
    IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
Unmasked(g, m) == SelectSeq(g, LAMBDA p : m[p] = 0)
=============================================================================
