------------------------------ MODULE SearchMC ------------------------------
(* Both searches as algorithms, one bin per step, over every small plane.    *)
EXTENDS Search
CONSTANTS Methods, NR, NF, Vals, MaxUp, Reaches         \* planes of at most MaxUp bins other than 0
VARIABLES p, method, at, seen, queue, group, found
vars == <<p, method, at, seen, queue, group, found>>
N == NR * NF
Cell(k) == <<((k - 1) \div NF) + 1, ((k - 1) % NF) + 1>>
Planes == {[r \in 1..NR |-> [f \in 1..NF |-> IF <<r, f>> \in DOMAIN u THEN u[<<r, f>>] ELSE 0]] :
             u \in UNION {[S -> Vals \ {0}] : S \in {T \in SUBSET ((1..NR) \X (1..NF)) : Cardinality(T) <= MaxUp}}}
Init == /\ \E v \in Planes, d \in Reaches, fl \in {0, 1} :
              p = [nr |-> NR, nf |-> NF, v |-> v, n |-> [r \in 1..NR |-> IF r = 2 THEN 4 ELSE 1], floor |-> fl, power |-> 1, thr |-> 4, d |-> d]
        /\ method \in Methods /\ at = 1 /\ seen = {} /\ queue = <<>> /\ group = {} /\ found = {}
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET c == First(S) IN <<c>> \o InOrder(S \ {c})
\* flood fill
Grow == /\ method = "cc" /\ queue /= <<>>
        /\ LET c == Head(queue) IN
           IF c \in seen THEN queue' = Tail(queue) /\ UNCHANGED <<seen, group>>
           ELSE /\ seen' = seen \cup {c}
                /\ IF c \in Half(p) THEN /\ group' = group \cup {c}
                                         /\ queue' = Tail(queue) \o InOrder((Neighbours(c, Around(p.d)) \cap Cells(p)) \ seen')
                   ELSE group' = group /\ queue' = Tail(queue)
        /\ UNCHANGED <<p, method, at, found>>
Close == method = "cc" /\ queue = <<>> /\ group /= {} /\ found' = found \cup {group} /\ group' = {} /\ UNCHANGED <<p, method, at, seen, queue>>
Scan == /\ method = "cc" /\ queue = <<>> /\ group = {} /\ at <= N
        /\ at' = at + 1
        /\ queue' = (IF Cell(at) \notin seen /\ Cell(at) \in Above(p) THEN <<Cell(at)>> ELSE <<>>)
        /\ UNCHANGED <<p, method, seen, group, found>>
\* comparison with the neighbours one after the other; the first that is not smaller ends the comparisons of its channel offset
Lower(c) == {b \in Hood(p, c) : b \in Cells(p) /\ Ratio(p, b) < Ratio(p, c)
              /\ \A o \in Hood(p, c) : o[2] = b[2] /\ o[1] < b[1] => (o \in Cells(p) /\ Ratio(p, o) < Ratio(p, c))}
Look == /\ method = "lm" /\ at <= N /\ at' = at + 1
        /\ LET c == Cell(at) IN
           IF c \in seen \/ c \notin Above(p) THEN UNCHANGED <<seen, found>>
           ELSE /\ seen' = seen \cup Lower(c) \cup (IF Peak(p, c) THEN RunOf(p, c) ELSE {})
                /\ found' = IF Peak(p, c) THEN found \cup {{c}} ELSE found
        /\ UNCHANGED <<p, method, queue, group>>
Next == Grow \/ Close \/ Scan \/ Look
Spec == Init /\ [][Next]_vars
Finished == at = N + 1 /\ queue = <<>> /\ group = {}
TypeOK == seen \subseteq Cells(p) /\ \A g \in found : g \subseteq Cells(p)
\* components: disjoint, above half the threshold, each with a bin above it, and together holding all of those
Disjoint == \A x, y \in found : x = y \/ x \cap y = {}
Quiet == method = "cc" => \A g \in found : g \subseteq Half(p) /\ g \cap Above(p) /= {}
Complete == method = "cc" /\ Finished => Above(p) \subseteq UNION found /\ found = Components(p)
\* each is connected, neighbourhood taken in both directions
Connected == method = "cc" => \A g \in found : \A c \in g :
    Reach({}, {c}, g, Around(p.d) \cup {<<-o[1], -o[2]>> : o \in Around(p.d)}) = g
\* local maxima: peaks only, isolated peaks always
PeaksOnly == method = "lm" => \A g \in found : \A c \in g : Peak(p, c)
Isolation == method = "lm" /\ Finished => \A c \in Cells(p) : Isolated(p, c) => {c} \in found
=============================================================================
