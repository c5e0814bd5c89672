------------------------------- MODULE GenRel -------------------------------
(***************************************************************************)
(* Every relation over three attributes and the values 0..Vals-1 (headers  *)
(* of any size).  The driver joins all pairs of them, nests and unnests    *)
(* each in every way (driver "rel -mode small").                           *)
(***************************************************************************)
EXTENDS Rel, SequencesExt, TLC, Json
CONSTANTS Vals
VARIABLES r
Headers == {<<>>, <<"a">>, <<"b">>, <<"c">>, <<"a", "b">>, <<"c", "b">>, <<"a", "c">>, <<"a", "b", "c">>}
Rows(h) == [DOMAIN h -> 0..(Vals - 1)]
\* the empty relation has any header
Init == rl = <<>> /\ \E h \in Headers : \E q \in SUBSET Rows(h) : r = [h |-> h, q |-> SetToSeq(q)]
Spec == Init /\ [][FALSE]_<<rl, r>>
Emit == PrintT(<<"REL", ToJson(r)>>)
=============================================================================
