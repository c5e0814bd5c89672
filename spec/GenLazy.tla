------------------------------ MODULE GenLazy -------------------------------
(***************************************************************************)
(* Every lazy expression of Depth operations over four small sets: step d  *)
(* writes register 3 + d from the one before (and others).  The scripts    *)
(* are built by the real code, once for every observer that may come first *)
(* (driver "lazyset -mode exprs"), and validated against Lazy.             *)
(***************************************************************************)
EXTENDS Lazy, TLC, Json
CONSTANTS Depth, Thin \* Thin: fewer operations
VARIABLES hist
vars == <<lz, lit, hist>>

Base == <<<<>>, <<0>>, <<0, 1>>, <<1, 2>>>>
Init ==
  /\ lz = [r \in 0..(3 + Depth) |-> IF r > 3 THEN None ELSE SetV(ToSet(Base[r + 1]))]
  /\ lit = <<>> /\ hist = <<>>
d == Len(hist) + 1
O == 3 + d
Did(h) == hist' = Append(hist, h)
\* operands: the register of the step before must be used
Prev == IF d = 1 THEN 0..3 ELSE {O - 1}
Second == IF Thin THEN {2, 3, O - 1} ELSE 0..(O - 1)
Xs == IF Thin THEN {2} ELSE {0, 2}
Ys == IF Thin THEN {0} ELSE {0, 1}
Qs == IF Thin THEN {<<1, 2>>} ELSE {<<>>, <<0>>, <<1, 2>>}
Fs == IF Thin THEN {<<0, 0, 1>>} ELSE {<<0, 0, 0>>, <<1, 2, 0>>, <<0, 0, 1>>}
Unary(a) ==
  IF K(a) = "set"
  THEN \/ \E x \in Xs : LWith(O, a, x) /\ Did([op |-> "lwith", o |-> O, a |-> a, x |-> x])
       \/ \E x \in Ys : LWithout(O, a, x) /\ Did([op |-> "lwithout", o |-> O, a |-> a, x |-> x])
       \/ \E q \in Qs : LWhere(O, a, "ids", q, 0) /\ Did([op |-> "lwhere", o |-> O, a |-> a, how |-> "ids", q |-> q])
       \/ \E f \in Fs : LMap(O, a, "ids", f, 0) /\ Did([op |-> "lmap", o |-> O, a |-> a, how |-> "ids", q |-> f])
       \* (the powerset of an empty set: see known-findings.txt)
       \/ D(a) # {} /\ LPow(O, a) /\ Did([op |-> "lpow", o |-> O, a |-> a])
       \/ ~Thin /\ LMap(O, a, "single", <<>>, 0) /\ Did([op |-> "lmap", o |-> O, a |-> a, how |-> "single"])
  ELSE \/ \E x \in Xs : LWhere(O, a, "has", <<>>, x) /\ Did([op |-> "lwhere", o |-> O, a |-> a, how |-> "has", x |-> x])
       \/ LWhere(O, a, "even", <<>>, 0) /\ Did([op |-> "lwhere", o |-> O, a |-> a, how |-> "even"])
       \/ LMap(O, a, "card", <<>>, 0) /\ Did([op |-> "lmap", o |-> O, a |-> a, how |-> "card"])
       \/ \E x \in Ys : LMap(O, a, "add", <<>>, x) /\ Did([op |-> "lmap", o |-> O, a |-> a, how |-> "add", x |-> x])
       \/ LWith(O, a, <<0, 2>>) /\ Did([op |-> "lwith", o |-> O, a |-> a, m |-> 5])
       \/ LWithout(O, a, <<1>>) /\ Did([op |-> "lwithout", o |-> O, a |-> a, m |-> 2])
Two(a, b) ==
  \/ LUnion(O, a, b) /\ Did([op |-> "lunion", o |-> O, a |-> a, b |-> b])
  \/ LInter(O, a, b) /\ Did([op |-> "linter", o |-> O, a |-> a, b |-> b])
  \/ LDiff(O, a, b) /\ Did([op |-> "ldiff", o |-> O, a |-> a, b |-> b])
  \/ LSymDiff(O, a, b) /\ Did([op |-> "lsym", o |-> O, a |-> a, b |-> b])
Next ==
  /\ d <= Depth
  /\ \E a \in Prev : Unary(a) \/ (\E b \in Second : Two(a, b) \/ (b # a /\ b \notin Prev /\ Two(b, a)))
Spec == Init /\ [][Next]_vars
\* a lazy set's denotation is a set of the kind its register says
Typed == \A r \in DOMAIN lz : K(r) = "pow" => D(r) \subseteq SUBSET (0..3)
Emit == hist # <<>> /\ (Depth < 3 \/ Len(hist) = Depth) => PrintT(<<"LAZY", ToJson(hist)>>)
=============================================================================
