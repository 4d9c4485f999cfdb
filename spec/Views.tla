------------------------------- MODULE Views -------------------------------
(* The array library's view semantics.  A buffer is a finite sequence of     *)
(* elements; an array handle is a view: a buffer, a shape and, for every     *)
(* logical element in row-major order, the position of that element in the   *)
(* buffer.  Slicing, squeezing, unsqueezing and copying a handle never move  *)
(* data; writing through a view changes exactly the elements it selects, and *)
(* every view of the same buffer sees the change.                            *)
EXTENDS Arr, TLC

CONSTANT Names                    \* names of handles
VARIABLES bufs,                   \* sequence of buffers: [dt |-> dtype, e |-> sequence of values]
          hs,                     \* handles: function from a set of names to views
          lent,                   \* views handed to other libraries: sequence of [v |-> view, on |-> not given back yet]
          res                     \* outcome of the last call: "" or the kind of exception
vars == <<bufs, hs, lent, res>>

View(b, shape, pos) == [b |-> b, shape |-> shape, pos |-> pos]
Values(v) == [n \in 1..Len(v.pos) |-> bufs[v.b].e[v.pos[n]]]
Bind(d, v) == hs' = (d :> v) @@ hs
PosSet(v) == {v.pos[n] : n \in 1..Len(v.pos)}
Fails(x) == res' = x /\ UNCHANGED <<bufs, hs>>
Live == DOMAIN hs

Init == bufs = <<>> /\ hs = <<>> /\ lent = <<>> /\ res = ""

\* conversion of a stored value to another element type (values are in range by construction)
Conv(x, dt) == x

New(d, dt, shape, vals) ==
    /\ bufs' = Append(bufs, [dt |-> dt, e |-> vals])
    /\ Bind(d, View(Len(bufs) + 1, shape, [n \in 1..Len(vals) |-> n]))
    /\ res' = ""

SliceOf(v, dim, s, e, st) ==
    View(v.b, SliceShape(v.shape, dim, s, e, st),
         LET p == SlicePos(v.shape, dim, s, e, st) IN [n \in 1..Len(p) |-> v.pos[p[n]]])

Slice(d, a, dim, s, e, st) ==
    LET v == hs[a]
        o == SliceOutcome(v.shape[dim + 1], s, e)
    IN IF o /= "" THEN Fails(o)
       ELSE Bind(d, SliceOf(v, dim, s, e, st)) /\ res' = "" /\ UNCHANGED bufs

\* two axes at once: the first slice, then the second slice of the result
Slice2(d, a, x, y) ==
    LET v  == hs[a]
        o1 == SliceOutcome(v.shape[x[1] + 1], x[2], x[3])
    IN IF o1 /= "" THEN Fails(o1)
       ELSE LET w  == SliceOf(v, x[1], x[2], x[3], x[4])
                o2 == SliceOutcome(w.shape[y[1] + 1], y[2], y[3])
            IN IF o2 /= "" THEN Fails(o2)
               ELSE Bind(d, SliceOf(w, y[1], y[2], y[3], y[4])) /\ res' = "" /\ UNCHANGED bufs

Squeeze(d, a, axis) ==
    LET v  == hs[a]
        ax == IF axis < 0 THEN Len(v.shape) + axis ELSE axis
    IN IF ax < 0 \/ ax >= Len(v.shape) THEN Fails("runtime_error")
       ELSE IF v.shape[ax + 1] /= 1 THEN Fails("runtime_error")
       ELSE /\ Bind(d, [v EXCEPT !.shape = SubSeq(v.shape, 1, ax) \o SubSeq(v.shape, ax + 2, Len(v.shape))])
            /\ res' = "" /\ UNCHANGED bufs

Unsqueeze(d, a, ax) ==
    LET v == hs[a]
    IN /\ Bind(d, [v EXCEPT !.shape = SubSeq(v.shape, 1, ax) \o <<1>> \o SubSeq(v.shape, ax + 1, Len(v.shape))])
       /\ res' = "" /\ UNCHANGED bufs

\* another shape for the same elements; only elements that are evenly spaced can be viewed that way, and a
\* view of the same rank may be refused
EvenlySpaced(v) == \A n \in 1..(Len(v.pos) - 1) : v.pos[n + 1] - v.pos[n] = v.pos[2] - v.pos[1]
Reshape(d, a, shape) ==
    LET v == hs[a]
        ok == Numel(shape) = Len(v.pos) /\ EvenlySpaced(v)
    IN \/ ok /\ Bind(d, [v EXCEPT !.shape = shape]) /\ res' = "" /\ UNCHANGED bufs
       \/ (~ok \/ Len(shape) = Len(v.shape)) /\ Fails("runtime_error")

\* a second handle on the same view (also what moving an array to the device it is on gives)
Handle(d, a) == Bind(d, hs[a]) /\ res' = "" /\ UNCHANGED bufs

\* handing an array to another library and taking it back as one of its own (DLPack): a view of the same
\* elements, which stay alive while either side uses them; what the other library sees is those elements
Share(d, a) == Handle(d, a)

\* only handed out: the other library sees that view of the buffer, whatever happens to the array, until it gives it back
Lend(a) == lent' = Append(lent, [v |-> hs[a], on |-> TRUE]) /\ res' = "" /\ UNCHANGED <<bufs, hs>>
GiveBack(n) == lent' = [lent EXCEPT ![n].on = FALSE] /\ res' = "" /\ UNCHANGED <<bufs, hs>>

\* a deep copy: a fresh buffer holding the view's values
Copy(d, a) ==
    /\ bufs' = Append(bufs, [dt |-> bufs[hs[a].b].dt, e |-> Values(hs[a])])
    /\ Bind(d, View(Len(bufs) + 1, hs[a].shape, [n \in 1..Len(hs[a].pos) |-> n]))
    /\ res' = ""

\* write a sequence of values through a view
Written(v, vals) ==
    [bufs EXCEPT ![v.b].e = [p \in 1..Len(@) |->
        IF p \in PosSet(v) THEN Conv(vals[CHOOSE n \in 1..Len(v.pos) : v.pos[n] = p], bufs[v.b].dt) ELSE @[p]]]

CanCopy(src, dst) ==
    /\ Len(src.shape) = Len(dst.shape)
    /\ \A d \in 1..Len(src.shape) : src.shape[d] = dst.shape[d] \/ src.shape[d] = 1

WriteFrom(dst, src) ==
    IF CanCopy(src, dst)
    THEN /\ bufs' = Written(dst, [n \in 1..Len(dst.pos) |-> Values(src)[OperandPos(dst.shape, src.shape, n)]])
         /\ res' = "" /\ UNCHANGED hs
    ELSE Fails("runtime_error")

CopyTo(d, a) == WriteFrom(hs[d], hs[a])
Fill(a, x) == bufs' = Written(hs[a], [n \in 1..Len(hs[a].pos) |-> x]) /\ res' = "" /\ UNCHANGED hs

\* slice(dst, ...) = src   and   slice(dst, ...) = slice(src, ...)
AssignSlice(d, x, a) ==
    LET o == SliceOutcome(hs[d].shape[x[1] + 1], x[2], x[3])
    IN IF o /= "" THEN Fails(o) ELSE WriteFrom(SliceOf(hs[d], x[1], x[2], x[3], x[4]), hs[a])
AssignSliceSlice(d, x, a, y) ==
    LET o1 == SliceOutcome(hs[d].shape[x[1] + 1], x[2], x[3])
        o2 == SliceOutcome(hs[a].shape[y[1] + 1], y[2], y[3])
    IN IF o1 /= "" \/ o2 /= "" THEN res' \in {o1, o2} \ {""} /\ UNCHANGED <<bufs, hs>>
       ELSE WriteFrom(SliceOf(hs[d], x[1], x[2], x[3], x[4]), SliceOf(hs[a], y[1], y[2], y[3], y[4]))

\* dst = src between plain arrays rebinds the handle, it does not copy data
Rebind(d, a) == Handle(d, a)
Drop(a) == hs' = [h \in Live \ {a} |-> hs[h]] /\ res' = "" /\ UNCHANGED bufs

\* ---- one call, described by a record (shared by the generator and the trace check) ----
\* Element types the library computes with; other types can only be viewed.
Computes(h) == bufs[hs[h].b].dt \in {"f", "i", "u", "b"}
\* The preconditions on calls: axes exist, steps are positive, and a slice
\* does not start before the array; source and destination do not overlap.
SpecOK(v, x) == /\ x[1] \in 0..(Len(v.shape) - 1) /\ x[4] >= 1
                /\ SliceStart(v.shape[x[1] + 1], x[2]) >= 0
                /\ SliceEnd(v.shape[x[1] + 1], x[3]) >= 0
Disjoint(v, w) == v.b /= w.b \/ PosSet(v) \cap PosSet(w) = {}

Call(c) ==
    CASE c.op = "new"       -> New(c.d, c.dt, c.n, c.v)
      [] c.op = "slice"     -> c.a \in Live /\ SpecOK(hs[c.a], c.x) /\ Slice(c.d, c.a, c.x[1], c.x[2], c.x[3], c.x[4])
      [] c.op = "slice2"    -> /\ c.a \in Live /\ SpecOK(hs[c.a], c.x)
                               /\ (SliceOutcome(hs[c.a].shape[c.x[1] + 1], c.x[2], c.x[3]) = ""
                                   => SpecOK(SliceOf(hs[c.a], c.x[1], c.x[2], c.x[3], c.x[4]), c.y))
                               /\ Slice2(c.d, c.a, c.x, c.y)
      [] c.op = "squeeze"   -> c.a \in Live /\ (Len(hs[c.a].shape) > 1) /\ Squeeze(c.d, c.a, c.n[1])
      [] c.op = "unsqueeze" -> c.a \in Live /\ c.n[1] \in 0..Len(hs[c.a].shape) /\ Unsqueeze(c.d, c.a, c.n[1])
      [] c.op = "reshape"   -> c.a \in Live /\ Len(hs[c.a].pos) > 0 /\ Len(c.n) > 0 /\ Reshape(c.d, c.a, c.n)
      [] c.op = "handle"    -> c.a \in Live /\ Handle(c.d, c.a)
      [] c.op = "todev"     -> c.a \in Live /\ Handle(c.d, c.a)
      [] c.op = "share"     -> c.a \in Live /\ Share(c.d, c.a)
      [] c.op = "borrow"    -> New(c.d, c.dt, c.n, c.v)   \* another library's memory, taken in as an array
      [] c.op = "copy"      -> c.a \in Live /\ Computes(c.a) /\ Copy(c.d, c.a)
      [] c.op = "copyto"    -> c.a \in Live /\ c.d \in Live /\ Computes(c.a) /\ Computes(c.d) /\ Disjoint(hs[c.a], hs[c.d]) /\ CopyTo(c.d, c.a)
      [] c.op = "fill"      -> c.a \in Live /\ Computes(c.a) /\ Fill(c.a, c.n[1])
      [] c.op = "sassign"   -> /\ c.a \in Live /\ c.d \in Live /\ Computes(c.a) /\ Computes(c.d) /\ SpecOK(hs[c.d], c.x) /\ Disjoint(hs[c.a], hs[c.d])
                               /\ AssignSlice(c.d, c.x, c.a)
      [] c.op = "sassigns"  -> /\ c.a \in Live /\ c.d \in Live /\ Computes(c.a) /\ Computes(c.d) /\ SpecOK(hs[c.d], c.x) /\ SpecOK(hs[c.a], c.y)
                               /\ \/ hs[c.a].b /= hs[c.d].b
                                  \/ /\ SliceOutcome(hs[c.d].shape[c.x[1] + 1], c.x[2], c.x[3]) = ""
                                     /\ SliceOutcome(hs[c.a].shape[c.y[1] + 1], c.y[2], c.y[3]) = ""
                                     /\ Disjoint(SliceOf(hs[c.d], c.x[1], c.x[2], c.x[3], c.x[4]),
                                                 SliceOf(hs[c.a], c.y[1], c.y[2], c.y[3], c.y[4]))
                               /\ AssignSliceSlice(c.d, c.x, c.a, c.y)
      [] c.op = "drop"      -> c.a \in Live /\ Cardinality(Live) > 1 /\ Drop(c.a)

Apply(c) ==
    CASE c.op = "lend"     -> c.a \in Live /\ Lend(c.a)
      [] c.op = "giveback" -> c.n[1] \in DOMAIN lent /\ lent[c.n[1]].on /\ GiveBack(c.n[1])
      [] OTHER             -> Call(c) /\ UNCHANGED lent

\* ---- what always holds ----
WellFormed ==
    \A h \in Live : LET v == hs[h] IN
        /\ v.b \in 1..Len(bufs)
        /\ Numel(v.shape) = Len(v.pos)
        /\ PosSet(v) \subseteq 1..Len(bufs[v.b].e)          \* a view never reaches outside its buffer
        /\ Cardinality(PosSet(v)) = Len(v.pos)              \* and never names an element twice
LentWellFormed ==
    \A n \in DOMAIN lent : lent[n].on => lent[n].v.b \in 1..Len(bufs) /\ PosSet(lent[n].v) \subseteq 1..Len(bufs[lent[n].v.b].e)
\* what another library holds changes only by being written through a view of the same elements, or given back
LentStays == [][\A n \in DOMAIN lent : n \in DOMAIN lent' /\ lent'[n].v = lent[n].v /\ (lent'[n].on => lent[n].on)]_vars
\* a call changes at most one existing buffer, and never its type or size
Frame == [][\A b, c \in 1..Len(bufs) :
               /\ bufs'[b].dt = bufs[b].dt /\ Len(bufs'[b].e) = Len(bufs[b].e)
               /\ (bufs'[b] /= bufs[b] /\ bufs'[c] /= bufs[c] => b = c)]_vars
\* a call that fails changes nothing
FailureIsClean == [][res' /= "" => bufs' = bufs /\ hs' = hs]_vars
\* at most one handle is bound or dropped by a call
OneHandle == [][\A g, h \in Names : ((g \in Live) /= (g \in DOMAIN hs') \/ (g \in Live /\ g \in DOMAIN hs' /\ hs[g] /= hs'[g]))
                       /\ ((h \in Live) /= (h \in DOMAIN hs') \/ (h \in Live /\ h \in DOMAIN hs' /\ hs[h] /= hs'[h])) => g = h]_vars
=============================================================================
