------------------------------ MODULE LazyMemo ------------------------------
(***************************************************************************)
(* The cell behind every lazy set: an expression whose iteration lists its *)
(* elements, possibly some of them several times (Src), until an iterator  *)
(* that got to the end replaces the expression by the frozen set of what   *)
(* it has seen.  Two iterators, and observers between their steps.         *)
(* Checked: no iterator ever repeats an element, those that reach the end  *)
(* have had them all, and the cell always denotes the same set; also when  *)
(* two goroutines get into Range, or to the end, at the same time (Range   *)
(* loads the cell twice).  Every transition is emitted as a history for    *)
(* the driver "lazyset -mode memo" when Atomic.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Src, Its, Atomic
VARIABLES cell, it, hist
vars == <<cell, it, hist>>
Src1 == <<0, 1, 0, 2>>
Set == {Src[i] : i \in DOMAIN Src}
\* what iterating the cell lists: the expression, or the frozen set in some order
ListOf(c) == IF ~c.f THEN Src ELSE CHOOSE q \in [1..Cardinality(Set) -> Set] : \A i, j \in DOMAIN q : q[i] = q[j] => i = j
Off == [k |-> "off", pos |-> 0, seen |-> {}, out |-> <<>>, on |-> FALSE, list |-> <<>>]
\* the cell: frozen yet?  And the frozen set
Expr == [f |-> FALSE, v |-> {}]
Frz(S) == [f |-> TRUE, v |-> S]
Init == cell = Expr /\ it = [i \in Its |-> Off] /\ hist = <<>>
Did(h) == hist' = Append(hist, h)
Start(i, caching) == [k |-> IF caching THEN "cache" ELSE "plain", pos |-> 0, seen |-> {}, out |-> <<>>, on |-> FALSE, list |-> ListOf(cell)]
\* Range: is it frozen?  Yes: iterate it.  No: iterate what is there now, caching.
Range(i) ==
  \/ /\ Atomic
     /\ it' = [it EXCEPT ![i] = Start(i, ~cell.f)] /\ UNCHANGED cell
     /\ Did([op |-> "lrange", i |-> i])
  \/ /\ ~Atomic /\ it[i].k = "off"
     /\ it' = [it EXCEPT ![i] = IF ~cell.f THEN [Off EXCEPT !.k = "half"] ELSE Start(i, FALSE)]
     /\ UNCHANGED <<cell, hist>>
Range2(i) == it[i].k = "half" /\ it' = [it EXCEPT ![i] = Start(i, TRUE)] /\ UNCHANGED <<cell, hist>>
RECURSIVE Skip(_, _, _)
\* the next position whose element has not been seen, or one past the end
Skip(q, p, seen) == IF p > Len(q) THEN p ELSE IF q[p] \in seen THEN Skip(q, p + 1, seen) ELSE p
\* Next: caching iterators skip what they have had; at the end they freeze the cell
Advance(i) ==
  LET t == it[i]
      p == IF t.pos > Len(t.list) THEN t.pos ELSE IF t.k = "cache" THEN Skip(t.list, t.pos + 1, t.seen) ELSE t.pos + 1
      end == p > Len(t.list)
  IN /\ t.k \in {"cache", "plain"}
     /\ it' = [it EXCEPT ![i] = IF end THEN [t EXCEPT !.pos = p, !.on = FALSE]
                                ELSE [t EXCEPT !.pos = p, !.seen = @ \cup {t.list[p]}, !.out = Append(@, t.list[p]), !.on = TRUE]]
     /\ cell' = IF end /\ t.k = "cache" /\ t.pos <= Len(t.list) THEN Frz(t.seen) ELSE cell
NextStep(i) == Advance(i) /\ Did([op |-> "lnext", i |-> i])
Value(i) == Atomic /\ it[i].on /\ UNCHANGED <<cell, it>> /\ Did([op |-> "lval", i |-> i])
\* a complete iteration by an observer (freezing is one) freezes the cell; others leave it
Observe == Atomic /\ UNCHANGED <<cell, it>> /\ Did([op |-> "observe"])
Freeze == Atomic /\ cell' = (IF ~cell.f THEN Frz(Set) ELSE cell) /\ UNCHANGED it /\ Did([op |-> "lsame", how |-> "freeze"])
Next == Freeze \/ Observe \/ \E i \in Its : Range(i) \/ Range2(i) \/ NextStep(i) \/ Value(i)
Spec == Init /\ [][Next]_vars

Denotes == cell.f => cell.v = Set
Distinct == \A i \in Its : \A p, q \in DOMAIN it[i].out : it[i].out[p] = it[i].out[q] => p = q
Complete == \A i \in Its : it[i].k \in {"cache", "plain"} /\ it[i].pos > Len(it[i].list) => {it[i].out[p] : p \in DOMAIN it[i].out} = Set
\* the state, and how it was reached last: every transition is a state of this view
Last == IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]
View == <<cell, it, Last>>
\* only histories that some extension does not contain need replaying: all are short
Emit == hist # <<>> => PrintT(<<"MEMO", ToJson(hist)>>)
=============================================================================
