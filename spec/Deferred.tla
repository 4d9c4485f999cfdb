------------------------------ MODULE Deferred ------------------------------
(* Deferred arrays.  A source is a computation with a policy that says when  *)
(* it runs; handles on a source are copied freely and all share it.  Using a *)
(* handle yields an array (a buffer).  A lazy source runs at every use and   *)
(* yields a fresh buffer; a memoizing one runs at the first use and yields   *)
(* that buffer from then on; an eager one ran when it was made; a source     *)
(* made from an array is that array's buffer and never runs.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS DNames, ANames          \* names of deferred handles and of array handles
VARIABLES bufs,                   \* buffers: sequences of two values
          srcs,                   \* sources: [pol, base, n (times run), buf (0: none yet)]
          ds, as,                 \* handles: name -> source, name -> buffer
          res                     \* value of the last use (<<>> if the call was not a use)
vars == <<bufs, srcs, ds, as, res>>

Policies == {"lazy", "memoize", "eager"}
Init == bufs = <<>> /\ srcs = <<>> /\ ds = <<>> /\ as = <<>> /\ res = <<>>

\* what the n-th run of a computation yields
Yield(base, n) == <<base + n, base + n>>

NewArray(a, v) == /\ bufs' = Append(bufs, v) /\ as' = (a :> Len(bufs) + 1) @@ as
                  /\ res' = <<>> /\ UNCHANGED <<srcs, ds>>
Make(d, pol, base) ==
    LET p == IF pol = "default" THEN "lazy" ELSE pol
    IN /\ IF p = "eager"
          THEN bufs' = Append(bufs, Yield(base, 1)) /\ srcs' = Append(srcs, [pol |-> p, base |-> base, n |-> 1, buf |-> Len(bufs) + 1])
          ELSE UNCHANGED bufs /\ srcs' = Append(srcs, [pol |-> p, base |-> base, n |-> 0, buf |-> 0])
       /\ ds' = (d :> Len(srcs) + 1) @@ ds /\ res' = <<>> /\ UNCHANGED as
MakeFrom(d, a) == /\ srcs' = Append(srcs, [pol |-> "array", base |-> 0, n |-> 0, buf |-> as[a]])
                  /\ ds' = (d :> Len(srcs) + 1) @@ ds /\ res' = <<>> /\ UNCHANGED <<bufs, as>>
\* a copy of a handle, also one sent to the device it is on
Copy(d, s) == ds' = (d :> ds[s]) @@ ds /\ res' = <<>> /\ UNCHANGED <<bufs, srcs, as>>
\* use a handle and keep the array it yields
Use(a, d) ==
    LET s == srcs[ds[d]] IN
    IF s.buf /= 0
    THEN as' = (a :> s.buf) @@ as /\ res' = bufs[s.buf] /\ UNCHANGED <<bufs, srcs, ds>>
    ELSE LET v == Yield(s.base, s.n + 1) IN
         /\ bufs' = Append(bufs, v)
         /\ srcs' = [srcs EXCEPT ![ds[d]].n = @ + 1, ![ds[d]].buf = IF s.pol = "memoize" THEN Len(bufs) + 1 ELSE 0]
         /\ as' = (a :> Len(bufs) + 1) @@ as /\ res' = v /\ UNCHANGED ds
Fill(a, x) == bufs' = [bufs EXCEPT ![as[a]] = <<x, x>>] /\ res' = <<>> /\ UNCHANGED <<srcs, ds, as>>
DropD(d) == ds' = [h \in DOMAIN ds \ {d} |-> ds[h]] /\ res' = <<>> /\ UNCHANGED <<bufs, srcs, as>>

Apply(c) ==
    CASE c.op = "array" -> NewArray(c.a, c.v)
      [] c.op = "make"  -> Make(c.d, c.pol, c.n)
      [] c.op = "from"  -> c.a \in DOMAIN as /\ MakeFrom(c.d, c.a)
      [] c.op \in {"copy", "to"} -> c.s \in DOMAIN ds /\ Copy(c.d, c.s)
      [] c.op = "use"   -> c.d \in DOMAIN ds /\ Use(c.a, c.d)
      [] c.op = "fill"  -> c.a \in DOMAIN as /\ Fill(c.a, c.n)
      [] c.op = "drop"  -> c.d \in DOMAIN ds /\ DropD(c.d)

\* ---- what always holds ----
Bounded == \A s \in 1..Len(srcs) : srcs[s].pol /= "lazy" => srcs[s].n <= 1
EagerRan == \A s \in 1..Len(srcs) : srcs[s].pol = "eager" => srcs[s].n = 1
ArrayNever == \A s \in 1..Len(srcs) : srcs[s].pol = "array" => srcs[s].n = 0 /\ srcs[s].buf /= 0
MemoHolds == \A s \in 1..Len(srcs) : srcs[s].pol = "memoize" => (srcs[s].n = 1) = (srcs[s].buf /= 0)
LazyHolds == \A s \in 1..Len(srcs) : srcs[s].pol = "lazy" => srcs[s].buf = 0
\* only using a source runs it, and at most one source runs in a call
RunsOnlyOnUse == [][\A s \in 1..Len(srcs) : srcs'[s].n /= srcs[s].n =>
                       /\ srcs'[s].n = srcs[s].n + 1 /\ res' /= <<>>
                       /\ \A t \in 1..Len(srcs) : t /= s => srcs'[t] = srcs[t]]_vars
\* once a source has an array, it keeps that array
Sticky == [][\A s \in 1..Len(srcs) : srcs[s].buf /= 0 => srcs'[s].buf = srcs[s].buf]_vars
=============================================================================
