------------------------------ MODULE GenInts -------------------------------
(***************************************************************************)
(* The shape of an IntSet: a map from cells to non-empty bit masks.  Every *)
(* such shape of Keys integers, spread over cells in every way, that With  *)
(* and Without can make, with the history distinguished by which integers  *)
(* have been there before (a cell that lost its last integer must leave no *)
(* trace).  Emitted as scripts for the driver "ints -mode tries", like     *)
(* those of GenTrie; checked: the algorithms refine the set of integers.   *)
(***************************************************************************)
EXTENDS Values, TLC, Json
CONSTANTS Keys
VARIABLES lay, m, n, been, hist
vars == <<lay, m, n, been, hist>>
K == 0..(Keys - 1)
\* cells are interchangeable, and so are the integers: sizes in descending order
Layouts == {L \in [1..Keys -> 0..(Keys - 1)] :
              /\ \A i \in 1..(Keys - 1) : L[i] <= L[i + 1] /\ L[i + 1] <= L[i] + 1
              /\ L[1] = 0
              /\ \A c \in 1..(Keys - 1) : Cardinality({i \in 1..Keys : L[i] = c}) <= Cardinality({i \in 1..Keys : L[i] = c - 1})}
Cell(k) == lay[k + 1]
\* the bits of a cell, {} if it has no entry
Bits(c) == IF c \in DomOf(m) THEN Lookup(m, c) ELSE {}
Init == lay \in Layouts /\ m = {} /\ n = 0 /\ been = {} /\ hist = <<>>
With(k) == IF k \in Bits(Cell(k)) THEN UNCHANGED <<m, n>> ELSE m' = Put(m, Cell(k), Bits(Cell(k)) \cup {k}) /\ n' = n + 1
Without(k) ==
  IF k \notin Bits(Cell(k)) THEN UNCHANGED <<m, n>>
  ELSE LET b == Bits(Cell(k)) \ {k} IN m' = (IF b = {} THEN Drop(m, Cell(k)) ELSE Put(m, Cell(k), b)) /\ n' = n - 1
Next == \E k \in K :
  \/ With(k) /\ been' = been \cup {k} /\ hist' = Append(hist, <<k, 0>>) /\ UNCHANGED lay
  \/ Without(k) /\ UNCHANGED <<lay, been>> /\ hist' = Append(hist, <<k, -1>>)
Spec == Init /\ [][Next]_vars
View == <<lay, m, been>>
Content == UNION RanOf(m)
\* canonical: equal sets have equal maps
Canonical == {} \notin RanOf(m) /\ \A p \in m : \A k \in p[2] : Cell(k) = p[1]
Counts == n = Cardinality(Content)
Refines == Content = {k \in K : \E i \in DOMAIN hist : /\ hist[i] = <<k, 0>> /\ \A j \in (i + 1)..Len(hist) : hist[j] # <<k, -1>>}
Emit == PrintT(<<"TRIE", ToJson([lay |-> [i \in 1..Keys |-> <<lay[i]>>], hist |-> hist])>>)
=============================================================================
