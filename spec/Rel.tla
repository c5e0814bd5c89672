--------------------------------- MODULE Rel --------------------------------
(***************************************************************************)
(* Relational algebra at API level (package pkg/rel).  A relation is a set *)
(* of tuples; a tuple is a functional set of <<attribute, value>>; a value *)
(* is <<0, id>> (an atom) or <<1, R>> (a nested relation).  Registers hold *)
(* relations; every operator writes one register and nothing else changes. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE rl
rvars == <<rl>>

Rng(q) == {q[i] : i \in DOMAIN q}
\* decoding the recorded form: a tuple is a list of pairs, a relation a list of tuples
RECURSIVE Tup(_), Val(_), Relate(_)
Val(v) == IF v[1] = 0 THEN <<0, v[2]>> ELSE <<1, Relate(v[2])>>
Tup(t) == {<<t[i][1], Val(t[i][2])>> : i \in DOMAIN t}
Relate(q) == {Tup(q[i]) : i \in DOMAIN q}
\* the recorded listing names every tuple once, and so do the nested ones
RECURSIVE Exact(_)
Exact(q) ==
  /\ Cardinality(Relate(q)) = Len(q)
  /\ \A i \in DOMAIN q :
       /\ Cardinality({q[i][j][1] : j \in DOMAIN q[i]}) = Len(q[i])
       /\ \A j \in DOMAIN q[i] : q[i][j][2][1] = 1 => Exact(q[i][j][2][2])

Attrs(t) == {p[1] : p \in t}
Get(t, a) == (CHOOSE p \in t : p[1] = a)[2]
Proj(t, as) == {p \in t : p[1] \in as}
Agree(s, t) == \A p \in s : \A q \in t : p[1] = q[1] => p[2] = q[2]
Join2(R, S) == {p[1] \cup p[2] : p \in {x \in R \X S : Agree(x[1], x[2])}}
Unit == {{}}
RECURSIVE JoinAll(_)
JoinAll(q) == IF q = <<>> THEN Unit ELSE Join2(q[1], JoinAll(Tail(q)))
ProjR(R, as) == {Proj(t, as) : t \in R}
\* groups: sequence of <<name, sequence of attributes>>
NestR(R, groups) ==
  LET gone == UNION {Rng(groups[i][2]) : i \in DOMAIN groups}
      Key(t) == {p \in t : p[1] \notin gone}
      Mates(t) == {u \in R : Key(u) = Key(t)}
  IN {Key(t) \cup {<<groups[i][1], <<1, ProjR(Mates(t), Rng(groups[i][2]))>> >> : i \in DOMAIN groups} : t \in R}
UnnestT(t, a) ==
  LET key == {p \in t : p[1] # a}
  IN IF a \in Attrs(t) THEN Join2({key}, Get(t, a)[2]) ELSE {key}
UnnestR(R, a) == UNION {UnnestT(t, a) : t \in R}

(* ------------------------------ actions ------------------------------- *)
RFresh(n) == rl = [r \in 0..(n - 1) |-> {}]
RReset == rl' = [r \in DOMAIN rl |-> {}]
RPut(o, R) == rl' = [rl EXCEPT ![o] = R]
RSeen(o, c, e, q) == Exact(q) /\ Relate(q) = rl'[o] /\ c = Cardinality(rl'[o]) /\ e = (rl'[o] = {})
RQ(cond) == cond /\ UNCHANGED rl

Row(h, row) == {<<h[i], <<0, row[i]>> >> : i \in DOMAIN h}
RNew(o, h, rows) == RPut(o, {Row(h, rows[i]) : i \in DOMAIN rows})
RJoin(o, as) == RPut(o, JoinAll([i \in DOMAIN as |-> rl[as[i]]]))
\* disjoint headers: the same set as the join
RProduct(o, as) == RJoin(o, as)
RProject(o, a, q) == RPut(o, ProjR(rl[a], Rng(q)))
RNest(o, a, groups) == RPut(o, NestR(rl[a], groups))
RUnnest(o, a, at) == RPut(o, UnnestR(rl[a], at))
RSetOp(o, how, a, b) ==
  RPut(o, CASE how = "union" -> rl[a] \cup rl[b] [] how = "inter" -> rl[a] \cap rl[b] [] how = "diff" -> rl[a] \ rl[b])
RWith(o, a, t) == RPut(o, rl[a] \cup {Tup(t)})
RWithout(o, a, t) == RPut(o, rl[a] \ {Tup(t)})
RHas(a, t, res) == RQ(res = (Tup(t) \in rl[a]))
REqual(a, b, res) == RQ(\A i \in DOMAIN res : res[i] = (rl[a] = rl[b]))
RHash(hs) == RQ(\A i, j \in DOMAIN hs : rl[hs[i][1]] = rl[hs[j][1]] => hs[i][2] = hs[j][2])
\* nothing but a write changes a register (every register is listed again)
RAll(os) == RQ(\A i \in DOMAIN os : Exact(os[i][2]) /\ Relate(os[i][2]) = rl[os[i][1]])

(* ------------------------------ laws ---------------------------------- *)
\* checked by TLC on all small relations (MCRel): the definitions above are
\* the natural join, independent of order and grouping, and Unnest inverts Nest
Laws(R, S, T) ==
  /\ Join2(R, S) = Join2(S, R)
  /\ Join2(Join2(R, S), T) = Join2(R, Join2(S, T))
  /\ Join2(R, {}) = {} /\ Join2(R, Unit) = R /\ Join2(R, R) = R
=============================================================================
