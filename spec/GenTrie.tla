------------------------------- MODULE GenTrie ------------------------------
(***************************************************************************)
(* Every trie (up to the order of what is listed in leaves and twigs) that *)
(* adding and removing single keys can make, for every hash layout, with a *)
(* shortest script of calls making it.  The scripts are replayed on the    *)
(* real code (driver "store -mode tries"), where every operation is then   *)
(* made on every trie and every pair of tries: each transition of MCTrie   *)
(* is executed by the real code.                                           *)
(***************************************************************************)
EXTENDS Trie, TLC, Json
CONSTANTS Keys, Vals, Destructive
VARIABLES t, hist
vars == <<lay, t, hist>>
Digits == [1..Levels -> Idx]
RECURSIVE DNum(_, _)
DNum(h, i) == IF i = 0 THEN 0 ELSE DNum(h, i - 1) * Fan + h[i]
Layouts == {L \in [1..Keys -> Digits] : \A i \in 1..(Keys - 1) : DNum(L[i], Levels) <= DNum(L[i + 1], Levels)}
Init == lay \in Layouts /\ t = Nil /\ hist = <<>>
K == 0..(Keys - 1)
\* a call is <<key, value>>, or <<key, -1>> for removing the key
Next ==
  \/ \E k \in K, v \in 0..(Vals - 1) :
       t' = With("rhs", t, <<k, v>>, 0)[1] /\ hist' = Append(hist, <<k, v>>)
  \/ \E k \in K : t' = (IF Destructive THEN Remove(t, <<k, 0>>, 0) ELSE Without(t, <<k, 0>>, 0))[1] /\ hist' = Append(hist, <<k, -1>>)
Step == Next /\ UNCHANGED lay
Spec == Init /\ [][Step]_vars
\* histories do not tell states apart
View == <<lay, t>>
\* evaluated once for every new trie
Emit == PrintT(<<"TRIE", ToJson([lay |-> lay, hist |-> hist])>>)
=============================================================================
