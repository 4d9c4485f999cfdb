------------------------------- MODULE Levels -------------------------------
(* The four levels at which bliss works: coarse channel (c), scan (s, a      *)
(* sequence of channels), observation target (t, of scans) and cadence (k,   *)
(* of targets).  A stage applied to an object applies to each of its         *)
(* channels.  Objects are values: applying a stage to one leaves it alone.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Obj(lvl, x) == [lvl |-> lvl, x |-> x]
MapSeq(f(_), q) == [j \in DOMAIN q |-> f(q[j])]
MapT(f(_), t) == [j \in DOMAIN t |-> MapSeq(f, t[j])]
MapK(f(_), k) == [j \in DOMAIN k |-> MapT(f, k[j])]
MapObj(f(_), o) ==
    CASE o.lvl = "c" -> Obj("c", f(o.x))
      [] o.lvl = "s" -> Obj("s", MapSeq(f, o.x))
      [] o.lvl = "t" -> Obj("t", MapT(f, o.x))
      [] o.lvl = "k" -> Obj("k", MapK(f, o.x))
Up(lvl) == CASE lvl = "c" -> "s" [] lvl = "s" -> "t" [] lvl = "t" -> "k" [] OTHER -> "none"
Down(lvl) == CASE lvl = "s" -> "c" [] lvl = "t" -> "s" [] lvl = "k" -> "t" [] OTHER -> "none"
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
\* all channels of an object
Channels(o) == CASE o.lvl = "c" -> <<o.x>> [] o.lvl = "s" -> o.x [] o.lvl = "t" -> Cat(o.x)
                 [] o.lvl = "k" -> Cat([j \in DOMAIN o.x |-> Cat(o.x[j])])
=============================================================================
