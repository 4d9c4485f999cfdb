------------------------------- MODULE ArrMC -------------------------------
(* Laws of the shape arithmetic, checked for every pair of small shapes.     *)
EXTENDS Arr, TLC
CONSTANTS MaxRank, MaxDim
Shapes == UNION {[1..r -> 1..MaxDim] : r \in 1..MaxRank}
Seq1(f) == [d \in 1..Len(f) |-> f[d]]
VARIABLES a, b
Init == a = <<>> /\ b = <<>>
Next == \/ a = <<>> /\ a' \in Shapes /\ b' = b
        \/ a /= <<>> /\ b = <<>> /\ b' \in Shapes /\ a' = a
One == b = <<>> /\ a /= <<>>
CoordsOK == One => \A n \in 0..(Numel(a) - 1) : Flat(a, Coord(a, n)) = n /\ \A d \in 1..Len(a) : Coord(a, n)[d] \in 0..(a[d] - 1)
Laws == (b /= <<>> /\ Compatible(a, b)) =>
    LET out == BroadcastShape(a, b) IN
    /\ Compatible(b, a) /\ out = BroadcastShape(b, a)
    /\ Compatible(out, a) /\ BroadcastShape(out, a) = out /\ Numel(out) >= Numel(a)
    /\ {OperandPos(out, a, n) : n \in 1..Numel(out)} = 1..Numel(a)          \* every element is used
    /\ (out = a => \A n \in 1..Numel(out) : OperandPos(out, a, n) = n)
\* the groups of a reduction partition the elements
Partition == One => \A axes \in SUBSET (0..(Len(a) - 1)) :
    LET rs == ReducedShape(a, axes)
        G(m) == {Group(a, axes, m)[j] : j \in 1..Len(Group(a, axes, m))}
    IN /\ UNION {G(m) : m \in 1..Numel(rs)} = 1..Numel(a)
       /\ \A m1, m2 \in 1..Numel(rs) : m1 /= m2 => G(m1) \cap G(m2) = {}
       /\ \A m \in 1..Numel(rs) : Len(Group(a, axes, m)) * Numel(rs) = Numel(a)
       /\ \A n \in 1..Numel(a) : Len(Group(a, axes, 1)) > 0
SliceLaws == One => \A d \in 0..(Len(a) - 1), s \in (-MaxDim)..MaxDim, e \in (-MaxDim)..(MaxDim + 1), st \in 1..2 :
    LET z == a[d + 1] IN
    (SliceStart(z, s) >= 0 /\ SliceEnd(z, e) >= 0 /\ SliceOutcome(z, s, e) = "") =>
        LET p == SlicePos(a, d, s, e, st)
        IN /\ Len(p) = Numel(SliceShape(a, d, s, e, st))
           /\ \A i \in 1..Len(p) : p[i] \in 1..Numel(a)
           /\ \A i, j \in 1..Len(p) : i < j => p[i] < p[j]
Spec == Init /\ [][Next]_<<a, b>>
=============================================================================
