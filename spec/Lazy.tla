-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* Lazy sets at API level: a register holds an expression, of which the    *)
(* state keeps only what it denotes.  Building a lazy set writes one       *)
(* register; observing never changes anything (C11); every observer        *)
(* answers for the denoted set (C10).                                      *)
(*                                                                         *)
(* kinds of register:                                                      *)
(*   "none"    nothing there                                               *)
(*   "set"     v: set of element ids                                       *)
(*   "pow"     v: set of sets of ids (elements are lazy sets themselves)   *)
(*   "bigpow"  v: base set, standing for its (intractable) powerset        *)
(***************************************************************************)
EXTENDS Values

VARIABLES lz, lit
lvars == <<lz, lit>>

LFresh(nr, ni) ==
  /\ lz = [r \in 0..(nr - 1) |-> None]
  /\ lit = [i \in 0..(ni - 1) |-> [k |-> "off"]]
LReset ==
  /\ lz' = [r \in DOMAIN lz |-> None]
  /\ lit' = [i \in DOMAIN lit |-> [k |-> "off"]]

LWrite(o, value) == lz' = [lz EXCEPT ![o] = value] /\ UNCHANGED lit
LQuery(cond) == cond /\ UNCHANGED lvars
K(r) == lz[r].k
D(r) == lz[r].v
PowV(p) == [k |-> "pow", v |-> p]
BigV(s) == [k |-> "bigpow", v |-> s]
Tractable(r) == K(r) \in {"set", "pow"}

\* An element as recorded: an id in a "set", a list of ids in a "pow".
El(k, x) == IF k = "set" THEN x ELSE ToSet(x)
ElOK(k, x) == k # "set" => Cardinality(ToSet(x)) = Len(x)
Els(k, q) == {El(k, q[i]) : i \in DOMAIN q}
LListed(k, q, R) ==
  Len(q) = Cardinality(R) /\ (\A i \in DOMAIN q : ElOK(k, q[i])) /\ Els(k, q) = R

\* two registers denote the same set (an empty one has no element type)
SameDen(r, s) ==
  IF K(r) = "bigpow" \/ K(s) = "bigpow" THEN K(r) = K(s) /\ D(r) = D(s)
  ELSE IF D(r) = {} \/ D(s) = {} THEN D(r) = {} /\ D(s) = {}
  ELSE K(r) = K(s) /\ D(r) = D(s)
SubDen(r, s) ==
  IF D(r) = {} THEN TRUE
  ELSE IF D(s) = {} THEN FALSE ELSE K(r) = K(s) /\ D(r) \subseteq D(s)
\* kind of a combination of two registers
Both(r, s) == IF D(r) = {} THEN K(s) ELSE K(r)
Mk(k, v) == [k |-> k, v |-> v]
Compatible(r, s) == Tractable(r) /\ Tractable(s) /\ (K(r) = K(s) \/ D(r) = {} \/ D(s) = {})

(* -------------------------- building expressions ---------------------- *)
LNew(o, q) == LWrite(o, SetV(ToSet(q)))
LWith(o, a, x) == Tractable(a) /\ LWrite(o, Mk(K(a), D(a) \cup {El(K(a), x)}))
LWithout(o, a, x) == Tractable(a) /\ LWrite(o, Mk(K(a), D(a) \ {El(K(a), x)}))
\* (empty operands are set apart: TLC cannot compare ids with sets of ids)
LUnion(o, a, b) ==
  Compatible(a, b) /\ LWrite(o, Mk(Both(a, b),
    IF D(a) = {} THEN D(b) ELSE IF D(b) = {} THEN D(a) ELSE D(a) \cup D(b)))
LInter(o, a, b) ==
  Compatible(a, b) /\ LWrite(o, Mk(K(a), IF D(a) = {} \/ D(b) = {} THEN {} ELSE D(a) \cap D(b)))
LDiff(o, a, b) ==
  Compatible(a, b) /\ LWrite(o, Mk(K(a), IF D(a) = {} \/ D(b) = {} THEN D(a) ELSE D(a) \ D(b)))
LSymDiff(o, a, b) ==
  Compatible(a, b) /\ LWrite(o, Mk(Both(a, b),
    IF D(a) = {} THEN D(b) ELSE IF D(b) = {} THEN D(a) ELSE SymDiff(D(a), D(b))))
\* predicates: a set of kept ids; or on sets: contains id x, or cardinality is even
Keeps(how, q, x, e) ==
  CASE how = "ids" -> e \in ToSet(q)
    [] how = "has" -> x \in e
    [] how = "even" -> Cardinality(e) % 2 = 0
\* The predicate is defined on the elements only: the real one, whose domain d
\* is recorded, panics on anything else, and no observer may run into that.
Defined(a, d) == Els(K(a), d) = D(a)
LWhere(o, a, how, q, x) ==
  Tractable(a) /\ LWrite(o, Mk(K(a), {e \in D(a) : Keeps(how, q, x, e)}))
\* mappings: a table of ids; x |-> {x}; on sets: S |-> id |S|, S |-> S \cup {x}
LMap(o, a, how, f, x) ==
  /\ Tractable(a)
  /\ LWrite(o,
       CASE how = "ids" -> SetV({At(f, e) : e \in D(a)})
         [] how = "single" -> PowV({{e} : e \in D(a)})
         [] how = "card" -> SetV({Cardinality(e) : e \in D(a)})
         [] how = "add" -> PowV({e \cup {x} : e \in D(a)}))
LPow(o, a) ==
  /\ K(a) = "set"
  /\ LWrite(o, IF Cardinality(D(a)) <= 6 THEN PowV(SUBSET D(a)) ELSE BigV(D(a)))
\* freezing, or copying the handle: another expression for the same set
LSame(o, a) == LWrite(o, lz[a])

(* ------------------------------ observers ----------------------------- *)
IsEmptyD(r) == IF K(r) = "bigpow" THEN FALSE ELSE D(r) = {}
\* counts of intractable sets are only asked up to a limit below 2^30
UpTo(r, limit) ==
  IF K(r) # "bigpow" THEN Min2(Cardinality(D(r)), limit)
  ELSE IF Cardinality(D(r)) >= 30 THEN limit ELSE Min2(2 ^ Cardinality(D(r)), limit)
HasD(r, x) == IF K(r) = "bigpow" THEN ToSet(x) \subseteq D(r) ELSE D(r) # {} /\ El(K(r), x) \in D(r)

LEmpty(a, res) == LQuery(res = IsEmptyD(a))
LFastEmpty(a, ok, res) == LQuery(ok => res = IsEmptyD(a))
LCount(a, n) == LQuery(Tractable(a) /\ n = Cardinality(D(a)))
\* a claimed fast count is the count (n = -1: the count does not fit the trace)
LFastCount(a, ok, n) ==
  LQuery(ok => IF Tractable(a) THEN n = Cardinality(D(a))
               ELSE IF Cardinality(D(a)) >= 30 THEN n = -1 ELSE n = 2 ^ Cardinality(D(a)))
LCountUpTo(a, limit, n) == LQuery(n = UpTo(a, limit))
LFastCountUpTo(a, limit, ok, n) == LQuery(ok => n = UpTo(a, limit))
LHas(a, x, res) == LQuery(res = HasD(a, x))
LFastHas(a, x, ok, res) == LQuery(ok => res = HasD(a, x))
\* something that is not of the element type at all is in no set
LHasAlien(a, res) == LQuery(~res)
LEqual(a, b, res, alien) ==
  LQuery(~alien /\ \A i \in DOMAIN res : res[i] = SameDen(a, b))
LSubset(a, b, res) == LQuery(Tractable(a) /\ Tractable(b) /\ res = SubDen(a, b))
LHashes(hs) ==
  LQuery(\A i, j \in DOMAIN hs : SameDen(hs[i][1], hs[j][1]) => hs[i][2] = hs[j][2])
LElems(a, q) == LQuery(Tractable(a) /\ LListed(K(a), q, D(a)))

(* ------------------------------ iterators ----------------------------- *)
LRange(i, a) ==
  /\ lit' = [lit EXCEPT ![i] = [k |-> K(a), all |-> D(a), got |-> {}, cur |-> <<>>]]
  /\ UNCHANGED lz
LNext(i, ok, x) ==
  LET t == lit[i]
      e == El(t.k, x)
  IN /\ t.k # "off"
     /\ IF t.k = "bigpow"
        THEN ok /\ e \subseteq t.all /\ e \notin t.got /\ ElOK(t.k, x)
        ELSE /\ ok = (t.got # t.all)
             /\ ok => e \in t.all /\ e \notin t.got /\ ElOK(t.k, x)
     /\ lit' = IF ok THEN [lit EXCEPT ![i].got = @ \cup {e}, ![i].cur = <<e>>] ELSE [lit EXCEPT ![i].cur = <<>>]
     /\ UNCHANGED lz
\* asking again for the element an iterator stands on, whatever happened since
LVal(i, x) == LQuery(lit[i].k # "off" /\ lit[i].cur = <<El(lit[i].k, x)>>)

\* C11 as an action property: no step changes two registers, none changes what
\* an iterator in progress is over.
LazyStable ==
  [][/\ \A r, s \in DOMAIN lz :
          (r # s /\ lz'[r] # lz[r] /\ lz'[s] # lz[s]) => (lz'[r] = None /\ lz'[s] = None)
     /\ \A i \in DOMAIN lit :
          (lit[i].k # "off" /\ lit'[i].k # "off" /\ lit'[i].got # {}) => lit'[i].all = lit[i].all]_lvars
=============================================================================
