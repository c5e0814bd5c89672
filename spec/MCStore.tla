------------------------------- MODULE MCStore ------------------------------
(***************************************************************************)
(* FrozenStore itself on a tiny universe, exhaustively: every action with  *)
(* every argument and every result it allows.                              *)
(***************************************************************************)
EXTENDS FrozenStore
CONSTANTS NR, N, Maps
Ids == 0..(N - 1)
R == 0..(NR - 1)
NoWeights == <<>>
Tab == {t \in [1..N -> Ids] : TRUE}
Init == Fresh(NR, 1, 1)
SetOps ==
  \E o, a \in R :
    \/ \E q \in {<<>>} \cup {<<x, y>> : x, y \in Ids} : NewSet(o, q)
    \/ \E x \in Ids : SetWith(o, a, x) \/ SetWithout(o, a, x)
    \/ \E keep \in SUBSET Ids : SetWhere(o, a, keep)
    \/ \E f \in Tab : SetMap(o, a, f)
    \/ \E b \in R : SetUnion(o, a, b) \/ SetInter(o, a, b) \/ SetDiff(o, a, b) \/ SetSymDiff(o, a, b)
    \/ \E n \in 0..N, S \in SUBSET Ids : AnyN(o, a, n, S) \/ (\E rank \in Tab : FirstN(o, a, n, rank, S))
MapOps ==
  Maps /\ \E o, a \in R :
    \/ \E k, x \in Ids : NewMap(o, <<<<k, x>>>>) \/ MapWith(o, a, k, x)
    \/ \E k \in Ids : MapWithout(o, a, k) \/ MapProject(o, a, <<k>>)
    \/ \E b \in R : MapUpdate(o, a, b) \/ MapMerge(o, a, b, <<1, 1, 2, 0, N>>)
    \/ MapKeys(o, a)
    \/ \E f \in Tab : FromKeys(o, a, f)
BldOps ==
  \/ \E kind \in {"set"} \cup (IF Maps THEN {"map"} ELSE {}) : BNew(0, kind)
  \/ \E x \in Ids, n \in 0..N : BAdd(0, x, n) \/ BRemove(0, x, n) \/ (\E y \in Ids : BPut(0, x, y, n))
  \/ \E o \in R : BFinish(0, o, 0)
ItrOps ==
  \/ \E a \in R : reg[a].k = "set" /\ (INew(0, a) \/ (\E rank \in Tab : IOrd(0, a, rank)))
  \/ \E ok \in BOOLEAN, x \in Ids : INext(0, ok, x)
Next == SetOps \/ MapOps \/ BldOps \/ ItrOps
Spec == Init /\ [][Next]_vars

\* C06: values change by Finish only through the builder's content, which is then empty
BuilderDetached ==
  [][bld' # bld => \/ reg' = reg
                   \/ /\ bld'[0].v = {}
                      /\ \E o \in R : reg' = [reg EXCEPT ![o] = [k |-> bld[0].k, v |-> bld[0].v]]]_vars
\* writing a value touches neither builders nor iterators
WritesOnly == [][reg' # reg => itr' = itr]_vars
\* a count is the number of elements, an iterator never has more to yield than there is
Sane == /\ TypeOK
        /\ \A r \in R : reg[r].k = "map" => Cardinality(RanOf(reg[r].v)) <= Cardinality(DomOf(reg[r].v))
        /\ itr[0].k # "off" => itr[0].rem \subseteq Ids
\* the call always has an answer: for every state some result of every query exists
Answers ==
  \A a \in R : reg[a].k = "set" =>
    /\ \A n \in 0..N, rank \in Tab : \E S \in SUBSET Ids : IsSmallest(S, V(a), n, rank)
    /\ \E ok \in BOOLEAN : ok = (V(a) # {})
=============================================================================
