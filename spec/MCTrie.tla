------------------------------- MODULE MCTrie -------------------------------
(***************************************************************************)
(* Two tries t and u evolve by every operation of the library, together    *)
(* with the sets (functional sets of pairs) a and b they should denote.    *)
(* Checked for every hash layout of the keys, up to renaming of keys.      *)
(***************************************************************************)
EXTENDS Trie, TLC
CONSTANTS Keys, Vals \* 0..Keys-1, 0..Vals-1
VARIABLES t, u, nt, nu, a, b
vars == <<lay, t, u, nt, nu, a, b>>

Digits == [1..Levels -> Idx]
RECURSIVE DNum(_, _)
DNum(h, i) == IF i = 0 THEN 0 ELSE DNum(h, i - 1) * Fan + h[i]
\* keys are interchangeable: hashes in ascending order
Layouts == {L \in [1..Keys -> Digits] : \A i \in 1..(Keys - 1) : DNum(L[i], Levels) <= DNum(L[i + 1], Levels)}

Init == lay \in Layouts /\ t = Nil /\ u = Nil /\ nt = 0 /\ nu = 0 /\ a = {} /\ b = {}
K == 0..(Keys - 1)
Elem == {<<k, v>> : k \in K, v \in 0..(Vals - 1)}
Modes == IF Vals = 1 THEN {"rhs"} ELSE {"rhs", "mix"}
\* the abstract counterparts
AbsWith(m, e) == Put(m, e[1], e[2])
AbsComb(f, m, n) == {p \in m : p[1] \notin DomOf(n)} \cup {p \in n : p[1] \notin DomOf(m)}
                    \cup {Res(f, z[1], z[2]) : z \in {z \in m \X n : Eq(z[1], z[2])}}

SetT(r, c, x) == t' = r /\ nt' = c /\ a' = x /\ UNCHANGED <<lay, u, nu, b>>
DoWith == \E e \in Elem : LET r == With("rhs", t, e, 0) IN SetT(r[1], nt + 1 - r[2], AbsWith(a, e))
DoWithout == \E k \in K : LET r == Without(t, <<k, 0>>, 0) IN SetT(r[1], nt - r[2], Drop(a, k))
DoRemove == \E k \in K : LET r == Remove(t, <<k, 0>>, 0) IN SetT(r[1], nt - r[2], Drop(a, k))
DoSwap == t' = u /\ u' = t /\ nt' = nu /\ nu' = nt /\ a' = b /\ b' = a /\ UNCHANGED lay
DoCombine == \E f \in Modes :
  IF IsNil(t) THEN SetT(u, nu, b) ELSE IF IsNil(u) THEN SetT(t, nt, a)
  ELSE LET r == Combine(f, t, u, 0) IN SetT(r[1], nt + nu - r[2], AbsComb(f, a, b))
\* (maps are never intersected)
DoInter == Vals = 1 /\ LET n == IF nt > nu THEN Intersection(u, t, 0) ELSE Intersection(t, u, 0)
           IN SetT(n[1], n[2], IF nt > nu THEN {p \in b : p[1] \in DomOf(a)} ELSE {p \in a : p[1] \in DomOf(b)})
DoDiff == LET r == Difference(t, u, 0) IN SetT(r[1], nt - r[2], {p \in a : p[1] \notin DomOf(b)})
DoWhere == \E keep \in SUBSET K : LET r == Where(t, {e \in K \X (0..2) : e[1] \in keep}, 0) IN SetT(r[1], r[2], {p \in a : p[1] \in keep})
Next == DoWith \/ DoWithout \/ DoRemove \/ DoSwap \/ DoCombine \/ DoInter \/ DoDiff \/ DoWhere
Spec == Init /\ [][Next]_vars

Canonical == Canon(t, 0)
Refines == Content(t) = a /\ nt = Cardinality(a)
Queries ==
  /\ (nt = nu /\ Equal(t, u, 0)) = (a = b)
  /\ SubsetOf(t, u, 0) = (DomOf(a) \subseteq DomOf(b))
  /\ \A k \in K : Get(t, <<k, 0>>, 0) = (k \in DomOf(a))
=============================================================================
