------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Abstract values of arr-ai/frozen and the mathematics on them.           *)
(*                                                                         *)
(* Elements are natural numbers (ids): the conformance driver keeps a table*)
(* from ids to real Go values (ints, strings, structs with user-defined    *)
(* Hash/Equal, machine integers at type limits, nested collections, ...).  *)
(*                                                                         *)
(* A value is a record [k |-> kind, v |-> content]:                        *)
(*   "set"  v: set of ids                  frozen.Set, frozen.IntSet       *)
(*   "map"  v: functional set of <<k,v>>   frozen.Map                      *)
(*   "nest" v: set of sets of ids          Set[Set[T]], Set[IntSet], ...   *)
(*   "nmap" v: functional set of <<S, k>>  Map[Set[T], int]                *)
(*   "none" nothing there                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == [k |-> "none", v |-> {}]
SetV(s) == [k |-> "set", v |-> s]
MapV(m) == [k |-> "map", v |-> m]
NestV(n) == [k |-> "nest", v |-> n]
NMapV(g) == [k |-> "nmap", v |-> g]

ToSet(q) == {q[i] : i \in DOMAIN q}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Table lookup: tables are sequences indexed from id+1.
At(t, x) == t[x + 1]

(* --------------------------- finite maps ------------------------------ *)
DomOf(m) == {p[1] : p \in m}
RanOf(m) == {p[2] : p \in m}
IsFunctional(m) == Cardinality(DomOf(m)) = Cardinality(m)
Lookup(m, k) == (CHOOSE p \in m : p[1] = k)[2]
Put(m, k, v) == {p \in m : p[1] # k} \cup {<<k, v>>}
Drop(m, k) == {p \in m : p[1] # k}
Restrict(m, ks) == {p \in m : p[1] \in ks}
Override(m, n) == {p \in m : p[1] \notin DomOf(n)} \cup n

\* The driver's parametric functions: lin = <<p, q, r, s, mod>>.
Lin3(c, x, y, z) == (c[1] * x + c[2] * y + c[3] * z + c[4]) % c[5]
Lin2(c, x, y) == (c[1] * x + c[2] * y + c[4]) % c[5]
\* predicate on (key, value): Lin2 below threshold c[6]
Pred2(c, x, y) == Lin2(c, x, y) < c[6]

Merged(m, n, c) ==
  {p \in m : p[1] \notin DomOf(n)} \cup {p \in n : p[1] \notin DomOf(m)}
  \cup {<<k, Lin3(c, k, Lookup(m, k), Lookup(n, k))>> : k \in DomOf(m) \cap DomOf(n)}

\* A later pair of the sequence overrides an earlier one with the same key.
RECURSIVE PutAll(_, _)
PutAll(m, kvs) == IF kvs = <<>> THEN m ELSE PutAll(Put(m, kvs[1][1], kvs[1][2]), Tail(kvs))

(* ------------------------------ sets ---------------------------------- *)
SymDiff(a, b) == (a \ b) \cup (b \ a)
ImageT(f, s) == {At(f, x) : x \in s}
\* an order given by a rank table (ties allowed)
Leq(rank, x, y) == At(rank, x) <= At(rank, y)
\* R is a valid choice of the n smallest elements of s under rank
IsSmallest(R, s, n, rank) ==
  /\ R \subseteq s
  /\ Cardinality(R) = Min2(n, Cardinality(s))
  /\ \A x \in R : \A y \in s \ R : Leq(rank, x, y)
\* q lists exactly the set R, each element once
Lists(q, R) == Len(q) = Cardinality(R) /\ ToSet(q) = R
\* q is sorted by rank
Sorted(q, rank) == \A i \in 1..(Len(q) - 1) : Leq(rank, q[i], q[i + 1])

RECURSIVE SumSet(_)
SumSet(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN x + SumSet(s \ {x})
MaxRank(s, rank) == CHOOSE x \in s : \A y \in s : Leq(rank, y, x)

RECURSIVE BigUnion(_)
BigUnion(q) == IF q = <<>> THEN {} ELSE q[1] \cup BigUnion(Tail(q))
RECURSIVE BigInter(_)
BigInter(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \cap BigInter(Tail(q))

IotaSet(start, stop, step) ==
  IF step > 0 THEN {x \in start..(stop - 1) : (x - start) % step = 0}
  ELSE {x \in (stop + 1)..start : (start - x) % (-step) = 0}
=============================================================================
