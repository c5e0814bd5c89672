-------------------------------- MODULE MCRel -------------------------------
(***************************************************************************)
(* The definitions of Rel, checked on all relations over three attributes  *)
(* and two values: the join is the natural join (a tuple is in it exactly  *)
(* if its projections are in the operands), commutative, associative, with *)
(* identity and zero; Unnest inverts Nest; several groups of Nest lose     *)
(* nothing.                                                                *)
(***************************************************************************)
EXTENDS Rel
CONSTANTS As, Third
VARIABLES R, S, T, n
vars == <<rl, R, S, T, n>>
Vals == {0, 1}
Tuples(h) == {{<<a, <<0, f[a]>> >> : a \in h} : f \in [h -> Vals]}
Headers == {h \in SUBSET As : Cardinality(h) < 3}
Init == rl = <<>> /\ n = 1 /\ S = {} /\ T = {} /\ \E h \in SUBSET As : R \in SUBSET Tuples(h)
Pick2 == n = 1 /\ n' = 2 /\ (\E h \in Headers : S' \in SUBSET Tuples(h)) /\ UNCHANGED <<rl, R, T>>
Pick3 == n = 2 /\ n' = 3 /\ (\E h \in Third : T' \in SUBSET Tuples(h)) /\ UNCHANGED <<rl, R, S>>
Next == Pick2 \/ Pick3
Spec == Init /\ [][Next]_vars

H(Q) == IF Q = {} THEN {} ELSE Attrs(CHOOSE t \in Q : TRUE)
NestsOK ==
  n = 1 =>
  \A g \in SUBSET H(R) :
    LET N == NestR(R, << <<"n", <<>> >> >>) \* grouped by everything
        q == CHOOSE f \in [1..Cardinality(g) -> g] : Rng(f) = g
        N1 == NestR(R, << <<"n", q>> >>)
    IN /\ UnnestR(N, "n") = R
       /\ UnnestR(N1, "n") = R
       /\ \A t, u \in N1 : {p \in t : p[1] # "n"} = {p \in u : p[1] # "n"} => t = u
       /\ ProjR(N1, H(R) \ g) = ProjR(R, H(R) \ g)
       /\ \A g2 \in SUBSET H(R) :
            LET q2 == CHOOSE f \in [1..Cardinality(g2) -> g2] : Rng(f) = g2
                N2 == NestR(R, << <<"n", q>>, <<"m", q2>> >>)
            IN /\ R \subseteq Join2(UnnestR(UnnestR(N2, "n"), "m"), R)
               /\ UnnestR(UnnestR(N2, "n"), "m") = UnnestR(UnnestR(N2, "m"), "n")
\* the independent definition
Natural(A, B) == {t \in Tuples(H(A) \cup H(B)) : Proj(t, H(A)) \in A /\ Proj(t, H(B)) \in B}
JoinsOK ==
  n = 2 =>
  /\ Join2(R, S) = (IF R = {} \/ S = {} THEN {} ELSE Natural(R, S))
  /\ Join2(R, S) = Join2(S, R)
  /\ Join2(R, {}) = {} /\ Join2(R, Unit) = R /\ Join2(R, R) = R
  /\ (H(R) = H(S) /\ R # {} /\ S # {} => Join2(R, S) = R \cap S)
AssocOK == n = 3 => Join2(Join2(R, S), T) = Join2(R, Join2(S, T)) /\ JoinAll(<<R, S, T>>) = Join2(S, Join2(T, R))
=============================================================================
