-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* The hash trie behind frozen.Set and frozen.Map, at the level of nodes:  *)
(* leaves of one and two elements, branches of Fan children, and twigs     *)
(* (lists) for three or more elements whose hashes agree on all Levels     *)
(* digits.  Every operator below is the algorithm of the corresponding     *)
(* method of internal/pkg/tree, returning <<node, matches>> like it; the   *)
(* invariants of MCTrie say that the algorithms keep the trie canonical    *)
(* and that they refine the abstract operations of Values/FrozenStore.     *)
(*                                                                         *)
(* An element is <<key, value>>; only the key is hashed and compared       *)
(* (sets use one value only).  Hash(k) is the sequence of digits of k.     *)
(***************************************************************************)
EXTENDS Values

CONSTANTS Fan, Levels
\* lay: the hash layout in use, a sequence of digit sequences (keys from 0)
VARIABLE lay
Hash(k) == lay[k + 1]
\* the child index of an element at a depth (depths count from 0)
Digit(e, d) == Hash(e[1])[d + 1]
Eq(a, b) == a[1] = b[1]

Nil == [t |-> "nil"]
Leaf1(a) == [t |-> "l1", d |-> <<a>>]
Leaf2(a, b) == [t |-> "l2", d |-> <<a, b>>]
Twig(q) == [t |-> "tw", d |-> q]
Idx == 0..(Fan - 1)
Branch(c) == [t |-> "br", c |-> c]
NoKids == [i \in Idx |-> Nil]
IsBr(n) == n.t = "br"
IsNil(n) == n.t = "nil"

\* in what way two equal elements are resolved
Res(f, a, b) ==
  CASE f = "rhs" -> b
    [] f = "lhs" -> a
    [] f = "mix" -> <<a[1], (a[2] + 2 * b[2] + 1) % 3>>
    [] f = "xim" -> <<a[1], (b[2] + 2 * a[2] + 1) % 3>>
Flip(f) == CASE f = "rhs" -> "lhs" [] f = "lhs" -> "rhs" [] f = "mix" -> "xim" [] f = "xim" -> "mix"

\* the elements of a node in iteration order
RECURSIVE Flat(_), FlatKids(_, _)
Flat(n) == IF IsNil(n) THEN <<>> ELSE IF IsBr(n) THEN FlatKids(n.c, 0) ELSE n.d
FlatKids(c, i) == IF i = Fan THEN <<>> ELSE Flat(c[i]) \o FlatKids(c, i + 1)
Content(n) == ToSet(Flat(n))

\* position of an equal element in a list, 0 if none
Find(q, e) == IF \E i \in DOMAIN q : Eq(q[i], e) THEN CHOOSE i \in DOMAIN q : Eq(q[i], e) /\ \A j \in 1..(i - 1) : ~Eq(q[j], e) ELSE 0

RECURSIVE Get(_, _, _)
Get(n, e, d) ==
  IF IsNil(n) THEN FALSE
  ELSE IF IsBr(n) THEN Get(n.c[Digit(e, d)], e, d + 1)
  ELSE Find(n.d, e) # 0

\* what a list of elements becomes when it no longer has to be a twig
OfList(q) ==
  CASE Len(q) = 0 -> Nil
    [] Len(q) = 1 -> Leaf1(q[1])
    [] Len(q) = 2 -> Leaf2(q[1], q[2])
    [] OTHER -> Twig(q)
\* branch.Canonical: two elements at most are kept in a leaf
CanonBr(n) == LET q == Flat(n) IN IF Len(q) <= 2 THEN OfList(q) ELSE n

(* ------------------------- one element in, out ------------------------ *)
RECURSIVE With(_, _, _, _), BranchFrom(_, _), Grow(_, _, _)
\* With (and Add, WithFast, AddFast): f resolves <<old, new>>
With(f, n, e, d) ==
  CASE n.t = "nil" -> <<Leaf1(e), 0>>
    [] n.t = "l1" -> IF Eq(n.d[1], e) THEN <<Leaf1(Res(f, n.d[1], e)), 1>> ELSE <<Leaf2(n.d[1], e), 0>>
    [] n.t = "l2" ->
         IF Eq(n.d[1], e) THEN <<Leaf2(Res(f, n.d[1], e), n.d[2]), 1>>
         ELSE IF Eq(n.d[2], e) THEN <<Leaf2(n.d[1], Res(f, n.d[2], e)), 1>>
         ELSE <<BranchFrom(<<n.d[1], n.d[2], e>>, d), 0>>
    [] n.t = "tw" ->
         LET i == Find(n.d, e) IN
         IF i # 0 THEN <<Twig([n.d EXCEPT ![i] = Res(f, @, e)]), 1>> ELSE <<Twig(Append(n.d, e)), 0>>
    [] n.t = "br" ->
         LET i == Digit(e, d)
             r == With(f, n.c[i], e, d + 1)
         IN <<Branch([n.c EXCEPT ![i] = r[1]]), r[2]>>
BranchFrom(q, d) == IF d >= Levels THEN Twig(q) ELSE Grow(Branch(NoKids), q, d)
Grow(b, q, d) == IF q = <<>> THEN b ELSE Grow(With("rhs", b, q[1], d)[1], Tail(q), d)

Cut(q, i) == LET m == Len(q) IN SubSeq(IF i < m THEN [q EXCEPT ![i] = q[m]] ELSE q, 1, m - 1)
RECURSIVE Without(_, _, _), Remove(_, _, _)
Without(n, e, d) ==
  CASE n.t = "nil" -> <<n, 0>>
    [] n.t = "br" ->
         LET i == Digit(e, d)
             r == Without(n.c[i], e, d + 1)
         IN IF r[1] = n.c[i] THEN <<n, 0>> ELSE <<CanonBr(Branch([n.c EXCEPT ![i] = r[1]])), r[2]>>
    [] OTHER -> LET i == Find(n.d, e) IN IF i = 0 THEN <<n, 0>> ELSE <<OfList(Cut(n.d, i)), 1>>
\* builders: only a child that is no branch makes its parent shrink
Remove(n, e, d) ==
  CASE n.t = "nil" -> <<n, 0>>
    [] n.t = "br" ->
         LET i == Digit(e, d)
             r == Remove(n.c[i], e, d + 1)
             b == Branch([n.c EXCEPT ![i] = r[1]])
         IN IF IsNil(n.c[i]) THEN <<n, 0>> ELSE <<IF IsBr(r[1]) THEN b ELSE CanonBr(b), r[2]>>
    [] OTHER -> LET i == Find(n.d, e) IN IF i = 0 THEN <<n, 0>> ELSE <<OfList(Cut(n.d, i)), 1>>

(* ------------------------------ two tries ----------------------------- *)
SumTo(g) == g[0] + (IF Fan > 1 THEN g[1] ELSE 0) + (IF Fan > 2 THEN g[2] ELSE 0) + (IF Fan > 3 THEN g[3] ELSE 0)

RECURSIVE Combine(_, _, _, _), Scan(_, _, _, _)
\* the elements of q go into the twig list ret one by one
Scan(f, old, ret, q) ==
  IF q = <<>> THEN <<ret, 0>>
  ELSE LET j == Find(old, q[1])
           r == IF j # 0 THEN Scan(f, old, [ret EXCEPT ![j] = Res(f, old[j], q[1])], Tail(q))
                ELSE Scan(f, old, Append(ret, q[1]), Tail(q))
       IN <<r[1], r[2] + (IF j # 0 THEN 1 ELSE 0)>>
Combine(f, n, m, d) ==
  CASE IsBr(n) /\ IsBr(m) ->
         LET r == [i \in Idx |-> IF IsNil(n.c[i]) THEN <<m.c[i], 0>>
                                 ELSE IF IsNil(m.c[i]) THEN <<n.c[i], 0>>
                                 ELSE Combine(f, n.c[i], m.c[i], d + 1)]
         IN <<Branch([i \in Idx |-> r[i][1]]), SumTo([i \in Idx |-> r[i][2]])>>
    [] IsBr(n) /\ m.t = "l1" -> With(f, n, m.d[1], d)
    [] IsBr(n) /\ m.t = "l2" ->
         LET r1 == With(f, n, m.d[1], d)
             r2 == With(f, r1[1], m.d[2], d)
         IN <<r2[1], r1[2] + r2[2]>>
    [] n.t = "l1" /\ m.t # "l1" -> Combine(Flip(f), m, n, d)
    [] n.t = "l1" /\ m.t = "l1" -> With(f, n, m.d[1], d)
    [] n.t = "l2" /\ m.t \in {"br", "tw"} -> Combine(Flip(f), m, n, d)
    [] n.t = "l2" /\ m.t = "l1" -> With(f, n, m.d[1], d)
    [] n.t = "l2" /\ m.t = "l2" ->
         LET a == n.d[1]  b == n.d[2]  x == m.d[1]  y == m.d[2] IN
         CASE Eq(a, x) /\ Eq(b, y) -> <<Leaf2(Res(f, a, x), Res(f, b, y)), 2>>
           [] Eq(a, x) /\ ~Eq(b, y) -> <<BranchFrom(<<Res(f, a, x), b, y>>, d), 1>>
           [] ~Eq(a, x) /\ Eq(b, y) -> <<BranchFrom(<<a, x, Res(f, b, y)>>, d), 1>>
           [] ~Eq(a, x) /\ ~Eq(b, y) /\ Eq(a, y) /\ Eq(b, x) -> <<Leaf2(Res(f, a, y), Res(f, b, x)), 2>>
           [] ~Eq(a, x) /\ ~Eq(b, y) /\ Eq(a, y) /\ ~Eq(b, x) -> <<BranchFrom(<<Res(f, a, y), b, x>>, d), 1>>
           [] ~Eq(a, x) /\ ~Eq(b, y) /\ ~Eq(a, y) /\ Eq(b, x) -> <<BranchFrom(<<a, y, Res(f, b, x)>>, d), 1>>
           [] OTHER -> <<BranchFrom(<<a, b, x, y>>, d), 0>>
    \* a twig: nothing but lists can be at its place in the other trie
    [] n.t = "tw" -> LET r == Scan(f, n.d, n.d, m.d) IN <<OfList(r[1]), r[2]>>

\* the elements of a list that the other node has (keep) or lacks
Sel(n, m, d, keep) == SelectSeq(n.d, LAMBDA e : Get(m, e, d) = keep)
RECURSIVE Intersection(_, _, _), Difference(_, _, _), SubsetOf(_, _, _), Equal(_, _, _)
Intersection(n, m, d) ==
  CASE IsNil(n) \/ IsNil(m) -> <<Nil, 0>>
    [] IsBr(n) /\ IsBr(m) ->
         LET r == [i \in Idx |-> IF IsNil(n.c[i]) \/ IsNil(m.c[i]) THEN <<Nil, 0>> ELSE Intersection(n.c[i], m.c[i], d + 1)]
         IN <<CanonBr(Branch([i \in Idx |-> r[i][1]])), SumTo([i \in Idx |-> r[i][2]])>>
    [] IsBr(n) /\ ~IsBr(m) -> Intersection(m, n, d)
    [] OTHER -> LET q == Sel(n, m, d, TRUE) IN <<OfList(q), Len(q)>>
Difference(n, m, d) ==
  CASE IsNil(n) \/ IsNil(m) -> <<n, 0>>
    [] IsBr(n) /\ IsBr(m) ->
         LET r == [i \in Idx |-> IF IsNil(n.c[i]) \/ IsNil(m.c[i]) THEN <<n.c[i], 0>> ELSE Difference(n.c[i], m.c[i], d + 1)]
         IN <<CanonBr(Branch([i \in Idx |-> r[i][1]])), SumTo([i \in Idx |-> r[i][2]])>>
    [] IsBr(n) /\ m.t = "l1" -> Without(n, m.d[1], d)
    [] IsBr(n) /\ m.t = "l2" ->
         LET r1 == Without(n, m.d[1], d)
             r2 == Without(r1[1], m.d[2], d)
         IN <<r2[1], r1[2] + r2[2]>>
    [] OTHER -> LET q == Sel(n, m, d, FALSE) IN <<OfList(q), Len(n.d) - Len(q)>>
SubsetOf(n, m, d) ==
  CASE IsNil(n) -> TRUE
    [] IsNil(m) -> FALSE
    [] IsBr(n) /\ IsBr(m) -> \A i \in Idx : SubsetOf(n.c[i], m.c[i], d + 1)
    [] IsBr(n) /\ ~IsBr(m) -> FALSE
    [] OTHER -> \A i \in DOMAIN n.d : Get(m, n.d[i], d)
\* full: elements must agree in their values as well (maps)
Same(a, b) == a = b
Equal(n, m, d) ==
  CASE n.t # m.t -> FALSE
    [] IsNil(n) -> TRUE
    [] IsBr(n) -> \A i \in Idx : IsNil(n.c[i]) = IsNil(m.c[i]) /\ (IsNil(n.c[i]) \/ Equal(n.c[i], m.c[i], d + 1))
    [] n.t = "l1" -> Same(n.d[1], m.d[1])
    [] n.t = "l2" -> \/ Same(n.d[1], m.d[1]) /\ Same(n.d[2], m.d[2])
                     \/ Same(n.d[1], m.d[2]) /\ Same(n.d[2], m.d[1])
    [] n.t = "tw" -> Len(n.d) = Len(m.d) /\ \A i \in DOMAIN n.d : \E j \in DOMAIN m.d : Same(n.d[i], m.d[j])
\* Where: a node keeps its place unless something was dropped
RECURSIVE Where(_, _, _)
Where(n, keep, d) ==
  CASE IsNil(n) -> <<n, 0>>
    [] IsBr(n) ->
         LET r == [i \in Idx |-> IF IsNil(n.c[i]) THEN <<Nil, 0>> ELSE Where(n.c[i], keep, d + 1)]
         IN <<CanonBr(Branch([i \in Idx |-> r[i][1]])), SumTo([i \in Idx |-> r[i][2]])>>
    [] OTHER -> LET q == SelectSeq(n.d, LAMBDA e : e \in keep) IN <<OfList(q), Len(q)>>

(* ---------------------------- canonical form -------------------------- *)
\* every element sits where its hash says; two elements at most make a leaf,
\* three or more a branch, or a twig when no digit is left; keys occur once
RECURSIVE Canon(_, _)
Canon(n, d) ==
  CASE IsNil(n) -> d = 0
    [] n.t = "l1" -> Len(n.d) = 1
    [] n.t = "l2" -> Len(n.d) = 2 /\ ~Eq(n.d[1], n.d[2])
    [] n.t = "tw" -> /\ d = Levels /\ Len(n.d) >= 3
                     /\ \A i, j \in DOMAIN n.d : i # j => ~Eq(n.d[i], n.d[j])
    [] IsBr(n) -> /\ d < Levels /\ Len(Flat(n)) >= 3
                  /\ \A i \in Idx : ~IsNil(n.c[i]) =>
                       /\ Canon(n.c[i], d + 1)
                       /\ \A e \in Content(n.c[i]) : Digit(e, d) = i
=============================================================================
