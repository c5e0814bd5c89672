---------------------------- MODULE FrozenStore ----------------------------
(***************************************************************************)
(* The eager part of arr-ai/frozen as a state machine at API level.        *)
(*                                                                         *)
(* State: registers holding immutable values, builders (the only mutable   *)
(* objects of the library), iterators (snapshots in progress).  One action *)
(* per public call; the call's result is a parameter of the action, so the *)
(* same action both generates behaviours (the result is chosen) and checks *)
(* recorded ones (the result is given).                                    *)
(***************************************************************************)
EXTENDS Values

\* How many real elements an id stands for (<<>>: one each).  Large-scale runs
\* let one id stand for a block of many thousand integers.
CONSTANT Weights

VARIABLES reg, bld, itr
vars == <<reg, bld, itr>>

Fresh(nr, nb, ni) ==
  /\ reg = [r \in 0..(nr - 1) |-> None]
  /\ bld = [b \in 0..(nb - 1) |-> [k |-> "set", v |-> {}]]
  /\ itr = [i \in 0..(ni - 1) |-> [k |-> "off"]]
\* Start over: everything is dropped (a new episode in a trace file).
Reset ==
  /\ reg' = [r \in DOMAIN reg |-> None]
  /\ bld' = [b \in DOMAIN bld |-> [k |-> "set", v |-> {}]]
  /\ itr' = [i \in DOMAIN itr |-> [k |-> "off"]]

\* Every value-producing call writes exactly one register and nothing else.
\* That no other register can change is the persistence property (C01).
Write(o, value) == reg' = [reg EXCEPT ![o] = value] /\ UNCHANGED <<bld, itr>>
Query(cond) == cond /\ UNCHANGED vars
Wt(x) == IF Weights = <<>> THEN 1 ELSE At(Weights, x)
RECURSIVE WeightRec(_)
WeightRec(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN At(Weights, x) + WeightRec(T \ {x})
\* how many real elements a set of ids stands for
Weight(S) == IF Weights = <<>> THEN Cardinality(S) ELSE WeightRec(S)
IsK(r, k) == reg[r].k = k
V(r) == reg[r].v

(* ------------------------- sets: constructors ------------------------- *)
NewSet(o, q) == Write(o, SetV(ToSet(q)))
Iota(o, start, stop, step, panics) ==
  IF step = 0 /\ start # stop
  THEN panics /\ UNCHANGED vars
  ELSE ~panics /\ Write(o, SetV(IF step = 0 THEN {} ELSE IotaSet(start, stop, step)))
(* ------------------------- sets: operations --------------------------- *)
SetWith(o, a, x) == IsK(a, "set") /\ Write(o, SetV(V(a) \cup {x}))
SetWithout(o, a, x) == IsK(a, "set") /\ Write(o, SetV(V(a) \ {x}))
SetWhere(o, a, keep) == IsK(a, "set") /\ Write(o, SetV(V(a) \cap keep))
SetMap(o, a, f) == IsK(a, "set") /\ Write(o, SetV(ImageT(f, V(a))))
SetUnion(o, a, b) == IsK(a, "set") /\ IsK(b, "set") /\ Write(o, SetV(V(a) \cup V(b)))
SetInter(o, a, b) == IsK(a, "set") /\ IsK(b, "set") /\ Write(o, SetV(V(a) \cap V(b)))
SetDiff(o, a, b) == IsK(a, "set") /\ IsK(b, "set") /\ Write(o, SetV(V(a) \ V(b)))
SetSymDiff(o, a, b) == IsK(a, "set") /\ IsK(b, "set") /\ Write(o, SetV(SymDiff(V(a), V(b))))
NUnion(o, as) == Write(o, SetV(BigUnion([i \in DOMAIN as |-> V(as[i])])))
NInter(o, as, panics) ==
  IF as = <<>> THEN panics /\ UNCHANGED vars
  ELSE ~panics /\ Write(o, SetV(BigInter([i \in DOMAIN as |-> V(as[i])])))
\* conversions between element types keep the content
Copy(o, a) == IsK(a, "set") /\ Write(o, reg[a])
\* arbitrary n elements: any subset of the right size
AnyN(o, a, n, R) ==
  /\ IsK(a, "set") /\ R \subseteq V(a) /\ Cardinality(R) = Min2(n, Cardinality(V(a)))
  /\ Write(o, SetV(R))
FirstN(o, a, n, rank, R) ==
  IsK(a, "set") /\ IsSmallest(R, V(a), n, rank) /\ Write(o, SetV(R))
(* --------------------------- sets: queries ---------------------------- *)
SetHas(a, x, res) == Query(IsK(a, "set") /\ res = (x \in V(a)))
SameKind(a, b) == reg[a].k = reg[b].k
\* every way of asking must give the one right answer; other: equality with
\* something that is not a collection of this type
EqualQ(a, b, res, other) ==
  Query(SameKind(a, b) /\ ~other /\ \A i \in DOMAIN res : res[i] = (V(a) = V(b)))
SubsetQ(a, b, res) == Query(IsK(a, "set") /\ IsK(b, "set") /\ res = (V(a) \subseteq V(b)))
AnyQ(a, panics, x) == Query(IF V(a) = {} THEN panics ELSE ~panics /\ x \in V(a))
OrdFirstN(a, n, rank, q) ==
  Query(IsSmallest(ToSet(q), V(a), n, rank) /\ Lists(q, ToSet(q)) /\ Sorted(q, rank))
OrdElements(a, rank, q) == Query(Lists(q, V(a)) /\ Sorted(q, rank))
FirstQ(a, rank, panics, x) ==
  Query(IF V(a) = {} THEN panics
        ELSE ~panics /\ x \in V(a) /\ \A y \in V(a) : Leq(rank, x, y))
\* Reduce with addition modulo m, with max-by-rank, and with list concatenation
ReduceSum(a, m, ok, res) == Query(ok = (V(a) # {}) /\ (ok => res = SumSet(V(a)) % m))
ReduceMax(a, rank, ok, res) ==
  Query(ok = (V(a) # {}) /\ (ok => res \in V(a) /\ \A y \in V(a) : Leq(rank, y, res)))
ReduceCat(a, ok, q) == Query(ok = (V(a) # {}) /\ (ok => Lists(q, V(a))))
\* Hash values are opaque: equal values of the same kind must agree.
\* hs is a sequence of <<register, hash text>> taken with one seed.
Hashes(hs) ==
  Query(\A i, j \in DOMAIN hs :
          reg[hs[i][1]] = reg[hs[j][1]] => hs[i][2] = hs[j][2])
\* Observing several registers: each entry is <<register, count, empty, iteration>>
\* Nested values arrive as lists of lists; an inner list must not repeat anything.
NestedSet(k, it) ==
  IF k = "nest" THEN {IF Lists(it[i], ToSet(it[i])) THEN ToSet(it[i]) ELSE {-1} : i \in DOMAIN it}
  ELSE {<<IF Lists(it[i][1], ToSet(it[i][1])) THEN ToSet(it[i][1]) ELSE {-1}, it[i][2]>> : i \in DOMAIN it}
SizeOf(value) == Weight(IF value.k = "map" THEN DomOf(value.v) ELSE value.v)
ObsOK(value, c, e, it) ==
  /\ c = SizeOf(value)
  /\ e = (value.v = {})
  /\ IF value.k \in {"nest", "nmap"} THEN Len(it) = c /\ NestedSet(value.k, it) = value.v
     ELSE Lists(it, value.v)
ObserveAll(os) == Query(\A i \in DOMAIN os : ObsOK(reg[os[i][1]], os[i][2], os[i][3], os[i][4]))
\* a full listing obtained by some view (iteration, Elements, JSON, text, Go map)
ViewQ(a, q) == Query(Lists(q, V(a)))
\* membership over the whole universe: hs = ids reported as members
HasAll(a, n, hs) ==
  Query(ToSet(hs) = {x \in 0..(n - 1) : x \in (IF IsK(a, "map") THEN DomOf(V(a)) ELSE V(a))})
\* the one-bit enumeration behind set-from-mask construction: q lists the bits of
\* a mask in ascending order as Index/Next enumerate them; wi, wo, nx: the masks
\* With(x), Without(x) and Next; hs: all i with Has(i)
BitsQ(m, x, q, hs, cnt, wi, wo, nx) ==
  LET S == ToSet(m)
      Asc(p) == \A i \in 1..(Len(p) - 1) : p[i] < p[i + 1]
  IN Query(/\ Lists(q, S) /\ Asc(q)
           /\ ToSet(hs) = S /\ cnt = Cardinality(S)
           /\ ToSet(wi) = S \cup {x} /\ ToSet(wo) = S \ {x}
           /\ ToSet(nx) = (IF S = {} THEN {} ELSE S \ {q[1]}))
(* Large scale: an id stands for Wt(id) elements, and a result that need not
   cover blocks wholly is given as <<id, how many of its elements>>. *)
RECURSIVE SumQ(_)
SumQ(q) == IF q = <<>> THEN 0 ELSE q[1][2] + SumQ(Tail(q))
PartOf(q, S) ==
  /\ \A i \in DOMAIN q : q[i][1] \in S /\ q[i][2] <= Wt(q[i][1])
  /\ Cardinality({q[i][1] : i \in DOMAIN q}) = Len(q)
AnyNW(a, n, c, q) == Query(PartOf(q, V(a)) /\ c = SumQ(q) /\ c = Min2(n, Weight(V(a))))
\* the n smallest by rank in order: q what they are, rk how many of each rank come in turn
OrdW(a, n, rank, c, q, rk) ==
  LET S == V(a)
      In(x) == {i \in DOMAIN q : q[i][1] = x}
      Cnt(x) == IF In(x) = {} THEN 0 ELSE q[CHOOSE i \in In(x) : TRUE][2]
  IN Query(/\ PartOf(q, S) /\ c = SumQ(q) /\ c = Min2(n, Weight(S))
           /\ \A x, y \in S : (At(rank, x) < At(rank, y) /\ Cnt(y) > 0) => Cnt(x) = Wt(x)
           /\ \A i \in 1..(Len(rk) - 1) : rk[i][1] < rk[i + 1][1]
           /\ SumQ(rk) = c)
\* Reduce with addition modulo m; f: what a block adds up to
RECURSIVE SumT(_, _)
SumT(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN At(f, x) + SumT(f, S \ {x})
ReduceTab(a, f, m, ok, res) == Query(ok = (V(a) # {}) /\ (ok => res = SumT(f, V(a)) % m))
\* several iterators run in turns: <<register, what its iterator yielded>>
IterViews(vs) == Query(\A i \in DOMAIN vs : Lists(vs[i][2], V(vs[i][1])))
\* ranges next to the ends of the machine integers, recorded as offsets from an end
IotaX(start, stop, step, c, q) ==
  Query(Lists(q, IotaSet(start, stop, step)) /\ c = Len(q))
(* ------------------ replayed behaviours of the trie model --------------
   Scripts generated by GenTrie make every trie; then every operation is made
   on every trie and every pair.  A set of keys is recorded as a bit mask, a
   map as a number in base 6 with digit 0 for absence.  c marks: a register the
   driver found listing the same elements as a result, and whether the two
   were equal and hashed equally.                                           *)
RECURSIVE ScriptSet(_, _), ScriptMap(_, _)
ScriptSet(S, q) == IF q = <<>> THEN S ELSE ScriptSet(IF q[1][2] < 0 THEN S \ {q[1][1]} ELSE S \cup {q[1][1]}, Tail(q))
ScriptMap(m, q) == IF q = <<>> THEN m ELSE ScriptMap(IF q[1][2] < 0 THEN Drop(m, q[1][1]) ELSE Put(m, q[1][1], q[1][2]), Tail(q))
Play(kind, q) == IF kind = "map" THEN MapV(ScriptMap({}, q)) ELSE SetV(ScriptSet({}, q))
Script(o, kind, q) == Write(o, Play(kind, q))
RECURSIVE Mask(_, _), Code(_, _)
\* ids below n as a bit mask
Mask(S, n) == IF n = 0 THEN 0 ELSE Mask(S, n - 1) + (IF (n - 1) \in S THEN 2 ^ (n - 1) ELSE 0)
MaskK(S) == Mask(S, 6)
Code(m, n) == IF n = 0 THEN 0 ELSE Code(m, n - 1) + (IF (n - 1) \in DomOf(m) THEN (Lookup(m, n - 1) + 1) * 6 ^ (n - 1) ELSE 0)
CodeK(m) == Code(m, 6)
\* the same by register kind, with the count
Shown(value, r) ==
  /\ r[1] = (IF value.k = "map" THEN CodeK(value.v) ELSE MaskK(value.v))
  /\ r[2] = (IF value.k = "map" THEN Cardinality(DomOf(value.v)) ELSE Cardinality(value.v))
\* <<mask, count, register, equal to it?>>
ShownC(value, r) == Shown(value, r) /\ (r[4] = 1) = (reg[r[3]] = value)
B01(x) == IF x THEN 1 ELSE 0
PairSet(S, r) ==
  LET T == V(r.b) IN
  /\ ShownC(SetV(S \cup T), r.u) /\ ShownC(SetV(S \cap T), r.i)
  /\ ShownC(SetV(S \ T), r.d) /\ ShownC(SetV(SymDiff(S, T)), r.s)
  /\ r.eq = B01(S = T) /\ r.sub = B01(S \subseteq T)
PairMap(m, r, c) ==
  LET n == V(r.b) IN
  /\ ShownC(MapV(Override(m, n)), r.u) /\ Shown(MapV(Merged(m, n, c)), r.m)
  /\ r.eq = B01(m = n)
PairsQ(a, rows, c) ==
  Query(\A i \in DOMAIN rows : IF IsK(a, "map") THEN PairMap(V(a), rows[i], c) ELSE PairSet(V(a), rows[i]))
IPairsQ(a, rows) ==
  Query(\A i \in DOMAIN rows :
          LET r == rows[i]
              S == V(a)
              T == V(r.b)
          IN ShownC(SetV(S \cup T), r.u) /\ ShownC(SetV(S \cap T), r.i) /\ r.eq = B01(S = T) /\ r.sub = B01(S \subseteq T))
\* every call on one value: With, Without, Has (or Get) of each of n ids, Where of each subset
SinglesQ(a, n, nv, w, wo, has, wh) ==
  Query(IF IsK(a, "set")
        THEN /\ \A x \in 0..(n - 1) : /\ Shown(SetV(V(a) \cup {x}), At(w, x)) /\ Shown(SetV(V(a) \ {x}), At(wo, x))
                                      /\ At(has, x) = B01(x \in V(a))
             /\ Len(wh) = 2 ^ n
             /\ \A i \in DOMAIN wh : Shown(SetV({x \in V(a) : ((i - 1) \div 2 ^ x) % 2 = 1}), wh[i])
        ELSE /\ \A x \in 0..(n - 1) : /\ \A y \in 0..(nv - 1) : Shown(MapV(Put(V(a), x, y)), At(w, x * nv + y))
                                      /\ Shown(MapV(Drop(V(a), x)), At(wo, x))
                                      /\ At(has, x) = IF x \in DomOf(V(a)) THEN Lookup(V(a), x) + 1 ELSE 0
             /\ Len(wh) = 2 ^ n
             /\ \A i \in DOMAIN wh : Shown(MapV({p \in V(a) : ((i - 1) \div 2 ^ p[1]) % 2 = 1}), wh[i]))
\* Values derived from one another: rows <<op, source, x, y, shown at once, shown at the end>>
\* where a source (and x, for operations on two values) is an earlier row, or -1 for
\* register a.  What a value shows at once is right, and it shows the same at the end.
RECURSIVE Derived(_, _, _, _)
Derived(a, rows, c, i) ==
  IF i < 0 THEN reg[a]
  ELSE LET r == rows[i + 1]
           S == Derived(a, rows, c, r[2]).v
           T == Derived(a, rows, c, r[3]).v
           map == reg[a].k = "map"
           Val(v) == IF map THEN MapV(v) ELSE SetV(v)
           Bit(x) == (r[3] \div 2 ^ x) % 2 = 1
       IN CASE r[1] = "reg" -> reg[r[3]]
            [] r[1] = "with" -> Val(IF map THEN Put(S, r[3], r[4]) ELSE S \cup {r[3]})
            [] r[1] = "without" -> Val(IF map THEN Drop(S, r[3]) ELSE S \ {r[3]})
            [] r[1] = "where" -> Val({p \in S : Bit(IF map THEN p[1] ELSE p)})
            [] r[1] = "union" -> Val(IF map THEN Override(S, T) ELSE S \cup T)
            [] r[1] = "merge" -> Val(Merged(S, T, c))
            [] r[1] = "inter" -> Val(S \cap T)
            [] r[1] = "diff" -> Val(S \ T)
            [] r[1] = "symdiff" -> Val(SymDiff(S, T))
ChainQ(a, rows, c, last) ==
  Query(/\ \A i \in DOMAIN rows : /\ Shown(Derived(a, rows, c, i - 1), rows[i][5]) /\ rows[i][6] = rows[i][5]
        /\ Shown(reg[a], last))
\* a builder fed with a script: <<count, membership mask>> after every call, and what Finish gives,
\* also after the builder has been fed again
BScriptQ(kind, q, log, fin, after, again) ==
  Query(/\ Len(log) = Len(q)
        /\ \A i \in DOMAIN q :
             LET value == Play(kind, SubSeq(q, 1, i)) IN
             LET D == IF kind = "map" THEN DomOf(value.v) ELSE value.v
             IN log[i] = <<Cardinality(D), MaskK(D)>>
        /\ Shown(Play(kind, q), fin) /\ after = 0 /\ again = fin)
(* --------------------------- nested values ---------------------------- *)
NewNest(o, as) == Write(o, NestV({V(as[i]) : i \in DOMAIN as}))
NestWith(o, a, b) == IsK(a, "nest") /\ IsK(b, "set") /\ Write(o, NestV(V(a) \cup {V(b)}))
NestWithout(o, a, b) == IsK(a, "nest") /\ IsK(b, "set") /\ Write(o, NestV(V(a) \ {V(b)}))
NestOp(o, op, a, b) ==
  /\ IsK(a, "nest") /\ IsK(b, "nest")
  /\ Write(o, NestV(CASE op = "union" -> V(a) \cup V(b)
                      [] op = "inter" -> V(a) \cap V(b)
                      [] op = "diff" -> V(a) \ V(b)))
\* "{a, b, ...(+rest)...}": w elements shown, the others counted
WidthQ(a, w, q, rest) ==
  Query(/\ ToSet(q) \subseteq V(a) /\ Cardinality(ToSet(q)) = Len(q)
        /\ Len(q) = Min2(w, Cardinality(V(a))) /\ Len(q) + rest = Cardinality(V(a)))
MapValuesQ(a, q, c) == Query(IsK(a, "map") /\ Lists(q, RanOf(V(a))) /\ c = Len(q))
NestHas(a, b, res) == Query(IsK(a, "nest") /\ IsK(b, "set") /\ res = (V(b) \in V(a)))
Powerset(o, a) == IsK(a, "set") /\ Write(o, NestV(SUBSET V(a)))
\* a large powerset: members as bit masks over the list es of the elements;
\* found: membership tests of subsets built in other ways
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
PowersetQ(a, es, ms, c, found) ==
  Query(Lists(es, V(a)) /\ Lists(ms, 0..(Pow2(Len(es)) - 1)) /\ c = Len(ms) /\ found)
\* maps keyed by sets
NewNMap(o, ps) == Write(o, NMapV(PutAll({}, [i \in DOMAIN ps |-> <<V(ps[i][1]), ps[i][2]>>])))
NMapWith(o, a, b, x) == IsK(a, "nmap") /\ Write(o, NMapV(Put(V(a), V(b), x)))
NMapWithout(o, a, b) == IsK(a, "nmap") /\ Write(o, NMapV(Drop(V(a), V(b))))
NMapGet(a, b, has, x) ==
  Query(has = (V(b) \in DomOf(V(a))) /\ (has => x = Lookup(V(a), V(b))))
(* ------------------------------- maps --------------------------------- *)
NewMap(o, kvs) == Write(o, MapV(PutAll({}, kvs)))
MapWith(o, a, k, x) == IsK(a, "map") /\ Write(o, MapV(Put(V(a), k, x)))
MapWithout(o, a, k) == IsK(a, "map") /\ Write(o, MapV(Drop(V(a), k)))
MapUpdate(o, a, b) == IsK(a, "map") /\ IsK(b, "map") /\ Write(o, MapV(Override(V(a), V(b))))
MapMerge(o, a, b, c) == IsK(a, "map") /\ IsK(b, "map") /\ Write(o, MapV(Merged(V(a), V(b), c)))
MapProject(o, a, ks) == IsK(a, "map") /\ Write(o, MapV(Restrict(V(a), ToSet(ks))))
MapWhere(o, a, c) == IsK(a, "map") /\ Write(o, MapV({p \in V(a) : Pred2(c, p[1], p[2])}))
MapMap(o, a, c) == IsK(a, "map") /\ Write(o, MapV({<<p[1], Lin2(c, p[1], p[2])>> : p \in V(a)}))
MapKeys(o, a) == IsK(a, "map") /\ Write(o, SetV(DomOf(V(a))))
FromKeys(o, a, f) == IsK(a, "set") /\ Write(o, MapV({<<x, At(f, x)>> : x \in V(a)}))
\* The whole grouping is checked row by row; the group of key pick (-1: none)
\* is kept as a set register, so that its persistence is checked as well.
\* rows: <<key, count, elements>>; count -1 marks a lookup by key that found
\* the group, -2 one that found nothing.
GroupBy(o, a, key, rows, ngroups, pick) ==
  LET S == V(a)
      G(k) == {x \in S : At(key, x) = k}
      Keys == {At(key, x) : x \in S}
      full == SelectSeq(rows, LAMBDA r : r[2] >= 0)
  IN /\ IsK(a, "set")
     /\ ngroups = Cardinality(Keys)
     /\ Lists([i \in DOMAIN full |-> full[i][1]], Keys)
     /\ \A i \in DOMAIN rows :
          /\ Lists(rows[i][3], G(rows[i][1]))
          /\ rows[i][2] >= 0 => rows[i][2] = Weight(G(rows[i][1]))
          /\ rows[i][2] < 0 => (rows[i][2] = -1) = (rows[i][1] \in Keys)
     /\ (pick = -1) = (S = {})
     /\ Write(o, SetV(IF pick = -1 THEN {} ELSE G(pick)))
MapGet(a, k, has, has2, x) ==
  Query(has = (k \in DomOf(V(a))) /\ has2 = has /\ (has => x = Lookup(V(a), k)))
MapMustGet(a, k, panics, x) ==
  Query(panics = (k \notin DomOf(V(a))) /\ (~panics => x = Lookup(V(a), k)))
MapGetElse(a, k, d, x) == Query(x = IF k \in DomOf(V(a)) THEN Lookup(V(a), k) ELSE d)
MapGetElseFunc(a, k, d, called, x) ==
  Query(/\ called = (k \notin DomOf(V(a)))
        /\ x = IF k \in DomOf(V(a)) THEN Lookup(V(a), k) ELSE d)
(* ------------------------------ builders ------------------------------ *)
BNew(b, kind) == bld' = [bld EXCEPT ![b] = [k |-> kind, v |-> {}]] /\ UNCHANGED <<reg, itr>>
BSet(b, v) == bld' = [bld EXCEPT ![b].v = v] /\ UNCHANGED <<reg, itr>>
\* n: what Count() says right after the call
BAdd(b, x, n) ==
  bld[b].k = "set" /\ BSet(b, bld[b].v \cup {x}) /\ n = Weight(bld[b].v \cup {x})
BPut(b, k, x, n) ==
  bld[b].k = "map" /\ BSet(b, Put(bld[b].v, k, x)) /\ n = Weight(DomOf(bld[b].v) \cup {k})
BDom(b) == IF bld[b].k = "set" THEN bld[b].v ELSE DomOf(bld[b].v)
BRemove(b, x, n) ==
  /\ BSet(b, IF bld[b].k = "set" THEN bld[b].v \ {x} ELSE Drop(bld[b].v, x))
  /\ n = Weight(BDom(b) \ {x})
BHas(b, x, res) ==
  Query(res = (x \in BDom(b)))
\* membership of the whole universe 0..n-1, and Count()
BHasAll(b, n, hs, c) ==
  Query(ToSet(hs) = BDom(b) \cap 0..(n - 1) /\ c = Weight(BDom(b)))
BView(b, q) == Query(Lists(q, bld[b].v))
BGet(b, k, has, x) ==
  Query(has = (k \in DomOf(bld[b].v)) /\ (has => x = Lookup(bld[b].v, k)))
\* n: Count() of the builder after Finish
BFinish(b, o, n) ==
  /\ n = 0
  /\ reg' = [reg EXCEPT ![o] = [k |-> bld[b].k, v |-> bld[b].v]]
  /\ bld' = [bld EXCEPT ![b].v = {}]
  /\ UNCHANGED itr
(* ------------------------------ iterators ----------------------------- *)
INew(i, a) ==
  itr' = [itr EXCEPT ![i] = [k |-> "iter", src |-> reg[a].k, rem |-> V(a), cur |-> <<>>]] /\ UNCHANGED <<reg, bld>>
IOrd(i, a, rank) ==
  itr' = [itr EXCEPT ![i] = [k |-> "ord", src |-> reg[a].k, rem |-> V(a), cur |-> <<>>, rank |-> rank]] /\ UNCHANGED <<reg, bld>>
INext(i, ok, x) ==
  /\ itr[i].k # "off"
  /\ ok = (itr[i].rem # {})
  /\ ok => /\ x \in itr[i].rem
           /\ itr[i].k = "ord" => \A y \in itr[i].rem : Leq(itr[i].rank, x, y)
  /\ itr' = IF ok THEN [itr EXCEPT ![i].rem = @ \ {x}, ![i].cur = <<x>>] ELSE [itr EXCEPT ![i].cur = <<>>]
  /\ UNCHANGED <<reg, bld>>
\* asking again for the element an iterator stands on, whatever happened since
IVal(i, x) == Query(itr[i].k # "off" /\ itr[i].cur = <<x>>)
(* ---------------------------- invariants ------------------------------ *)
TypeOK ==
  /\ \A r \in DOMAIN reg : reg[r].k \in {"none", "set", "map", "nest", "nmap"}
  /\ \A r \in DOMAIN reg : reg[r].k \in {"map", "nmap"} => IsFunctional(reg[r].v)
  /\ \A b \in DOMAIN bld : bld[b].k \in {"set", "map"}
  /\ \A b \in DOMAIN bld : bld[b].k = "map" => IsFunctional(bld[b].v)
\* C01 as an action property: a step changes at most one register, and no
\* step changes a register and keeps a stale alias of it in an iterator.
AtMostOneWrite ==
  [][\A r, s \in DOMAIN reg :
       (r # s /\ reg'[r] # reg[r] /\ reg'[s] # reg[s]) => (reg'[r] = None /\ reg'[s] = None)]_vars
\* C15: what an iterator has yet to yield changes only by its own steps, one
\* element at a time; no step on values or builders touches it.
IterSnapshot ==
  [][\A i \in DOMAIN itr :
       (itr[i].k # "off" /\ itr'[i].k # "off")
         => \/ itr'[i] = itr[i]
            \/ itr[i].rem = {} /\ itr'[i] = [itr[i] EXCEPT !.cur = <<>>]
            \/ /\ itr'[i].src = itr[i].src /\ itr'[i].rem \subseteq itr[i].rem
               /\ itr[i].rem \ itr'[i].rem = ToSet(itr'[i].cur) /\ Len(itr'[i].cur) = 1
            \/ \E r \in DOMAIN reg : reg[r].k = itr'[i].src /\ itr'[i].rem = reg[r].v]_vars
=============================================================================
