----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Trace validation: every recorded call on the real code must be a step   *)
(* of FrozenStore with the recorded arguments, and what the real code      *)
(* answered must be what the step answers.  The file is a sequence of      *)
(* events, one JSON object per line (see /verif/harness/store.go).         *)
(***************************************************************************)
EXTENDS FrozenStore, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Head1 == Trace[1]
TraceWeights == Head1.wt
LastOK == atoi(IOEnv.SHOW)

VARIABLE l
tvars == <<reg, bld, itr, l>>

TraceInit == Fresh(Head1.nr, Head1.nb, Head1.ni) /\ l = 2

\* the written register, as the real code shows it
Seen(e) == ObsOK(reg'[e.o], e.c, e.e, e.it)

\* callbacks were applied to elements, entries or shared entries only: they
\* need not be defined on anything else
On(e, S) == "on" \in DOMAIN e => \A i \in DOMAIN e.on : e.on[i] \in S
OnEls(e) == On(e, {<<x>> : x \in V(e.a)})
OnShared(e) == "on" \in DOMAIN e => \A i \in DOMAIN e.on : LET s == e.on[i] IN <<s[1], s[2]>> \in V(e.a) /\ <<s[1], s[3]>> \in V(e.b)

Event(e) ==
  CASE e.op = "reset" -> Reset
    [] e.op = "obs" -> ObserveAll(e.os)
    \* ---- sets
    [] e.op = "new" -> NewSet(e.o, e.q) /\ Seen(e)
    [] e.op = "with" -> SetWith(e.o, e.a, e.x) /\ Seen(e)
    [] e.op = "without" -> SetWithout(e.o, e.a, e.x) /\ Seen(e)
    [] e.op = "where" -> OnEls(e) /\ SetWhere(e.o, e.a, ToSet(e.q)) /\ Seen(e)
    [] e.op = "smap" -> OnEls(e) /\ SetMap(e.o, e.a, e.f) /\ Seen(e)
    [] e.op = "union" -> SetUnion(e.o, e.a, e.b) /\ Seen(e)
    [] e.op = "inter" -> SetInter(e.o, e.a, e.b) /\ Seen(e)
    [] e.op = "diff" -> SetDiff(e.o, e.a, e.b) /\ Seen(e)
    [] e.op = "symdiff" -> SetSymDiff(e.o, e.a, e.b) /\ Seen(e)
    [] e.op = "nunion" -> NUnion(e.o, e.as) /\ Seen(e)
    [] e.op = "ninter" -> IF e.p THEN NInter(0, e.as, TRUE) ELSE NInter(e.o, e.as, FALSE) /\ Seen(e)
    [] e.op = "rebuild" -> Copy(e.o, e.a) /\ Seen(e)
    [] e.op = "viaany" -> Copy(e.o, e.a) /\ Seen(e)
    [] e.op = "anyn" -> AnyN(e.o, e.a, e.n, ToSet(e.it)) /\ Seen(e)
    [] e.op = "firstn" -> OnEls(e) /\ FirstN(e.o, e.a, e.n, e.f, ToSet(e.it)) /\ Seen(e)
    [] e.op = "iota" ->
         IF e.p THEN Iota(0, e.n, e.i, e.y, TRUE) ELSE Iota(e.o, e.n, e.i, e.y, FALSE) /\ Seen(e)
    [] e.op = "mask" -> NewSet(e.o, e.q) /\ Seen(e)
    [] e.op = "has" -> SetHas(e.a, e.x, e.r)
    [] e.op = "equal" -> EqualQ(e.a, e.b, e.r, e.z)
    [] e.op = "subset" -> SubsetQ(e.a, e.b, e.r)
    [] e.op = "any" -> AnyQ(e.a, e.p, e.r)
    [] e.op = "ordfirstn" -> OnEls(e) /\ OrdFirstN(e.a, e.n, e.f, e.q)
    [] e.op = "ordelems" -> OnEls(e) /\ OrdElements(e.a, e.f, e.q)
    [] e.op = "first" -> OnEls(e) /\ FirstQ(e.a, e.f, e.p, e.r)
    [] e.op = "rsum" -> ReduceSum(e.a, e.n, e.ok, e.r)
    [] e.op = "rmax" -> ReduceMax(e.a, e.f, e.ok, e.r)
    [] e.op = "rcat" -> ReduceCat(e.a, e.ok, e.q)
    [] e.op = "hashes" -> Hashes(e.hs)
    [] e.op = "hasall" -> HasAll(e.a, e.n, e.hs)
    [] e.op = "view" -> ViewQ(e.a, e.q)
    [] e.op = "width" -> WidthQ(e.a, e.n, e.q, e.r)
    [] e.op = "bits" -> BitsQ(e.m, e.x, e.q, e.hs, e.c, e.wi, e.wo, e.nx)
    [] e.op = "iotax" -> IotaX(e.n, e.i, e.y, e.c, e.q)
    [] e.op = "anynw" -> AnyNW(e.a, e.n, e.c, e.q)
    [] e.op = "ordw" -> OrdW(e.a, e.n, e.f, e.c, e.q, e.rk)
    [] e.op = "rtab" -> ReduceTab(e.a, e.f, e.n, e.ok, e.r)
    [] e.op = "iters" -> IterViews(e.vs)
    [] e.op = "mgetall" -> ViewQ(e.a, e.q)
    [] e.op = "plusv" -> Query(~e.bad)
    \* ---- behaviours of the trie model
    [] e.op = "script" -> Script(e.o, e.k, e.q) /\ Seen(e)
    [] e.op = "pairs" -> PairsQ(e.a, e.rows, e.cf)
    [] e.op = "ipairs" -> IPairsQ(e.a, e.rows)
    [] e.op = "singles" -> SinglesQ(e.a, e.n, e.y, e.w, e.wo, e.h, e.wh)
    [] e.op = "bscript" -> BScriptQ(e.k, e.q, e.log, e.fin, e.y, e.again)
    [] e.op = "chain" -> ChainQ(e.a, e.rows, e.cf, e.last)
    \* ---- collections of collections
    [] e.op = "newnest" -> NewNest(e.o, e.as) /\ Seen(e)
    [] e.op = "nestwith" -> NestWith(e.o, e.a, e.b) /\ Seen(e)
    [] e.op = "nestwithout" -> NestWithout(e.o, e.a, e.b) /\ Seen(e)
    [] e.op = "nestop" -> NestOp(e.o, e.how, e.a, e.b) /\ Seen(e)
    [] e.op = "nesthas" -> NestHas(e.a, e.b, e.r)
    [] e.op = "powerset" -> Powerset(e.o, e.a) /\ Seen(e)
    [] e.op = "powq" -> PowersetQ(e.a, e.es, e.ms, e.c, e.ok)
    [] e.op = "newnmap" -> NewNMap(e.o, e.kv) /\ Seen(e)
    [] e.op = "nmapwith" -> NMapWith(e.o, e.a, e.b, e.x) /\ Seen(e)
    [] e.op = "nmapwithout" -> NMapWithout(e.o, e.a, e.b) /\ Seen(e)
    [] e.op = "nmapget" -> NMapGet(e.a, e.b, e.ok, e.x)
    \* ---- maps
    [] e.op = "newmap" -> NewMap(e.o, e.kv) /\ Seen(e)
    [] e.op = "mwith" -> MapWith(e.o, e.a, e.x, e.y) /\ Seen(e)
    [] e.op = "mwithout" -> MapWithout(e.o, e.a, e.x) /\ Seen(e)
    [] e.op = "mupdate" -> MapUpdate(e.o, e.a, e.b) /\ Seen(e)
    [] e.op = "mmerge" -> OnShared(e) /\ MapMerge(e.o, e.a, e.b, e.cf) /\ Seen(e)
    [] e.op = "mproject" -> MapProject(e.o, e.a, e.q) /\ Seen(e)
    [] e.op = "mwhere" -> On(e, V(e.a)) /\ MapWhere(e.o, e.a, e.cf) /\ Seen(e)
    [] e.op = "mmap" -> On(e, V(e.a)) /\ MapMap(e.o, e.a, e.cf) /\ Seen(e)
    [] e.op = "mkeys" -> MapKeys(e.o, e.a) /\ Seen(e)
    [] e.op = "mvalues" -> MapValuesQ(e.a, e.q, e.c)
    [] e.op = "fromkeys" -> OnEls(e) /\ FromKeys(e.o, e.a, e.f) /\ Seen(e)
    [] e.op = "mrebuild" -> IsK(e.a, "map") /\ Write(e.o, reg[e.a]) /\ Seen(e)
    [] e.op = "groupby" -> OnEls(e) /\ GroupBy(e.o, e.a, e.f, e.rows, e.y, e.n) /\ Seen(e)
    [] e.op = "mget" -> MapGet(e.a, e.x, e.ok, e.h, e.y)
    [] e.op = "mmust" -> MapMustGet(e.a, e.x, e.p, e.y)
    [] e.op = "melse" -> MapGetElse(e.a, e.x, e.y, e.r)
    [] e.op = "melsef" -> MapGetElseFunc(e.a, e.x, e.y, e.n = 1, e.r) /\ e.n <= 1
    \* ---- builders
    [] e.op = "bnew" -> BNew(e.i, e.how)
    [] e.op = "badd" -> BAdd(e.i, e.x, e.n)
    [] e.op = "bput" -> BPut(e.i, e.x, e.y, e.n)
    [] e.op = "brem" -> BRemove(e.i, e.x, e.n)
    [] e.op = "bhas" -> BHas(e.i, e.x, e.r)
    [] e.op = "bget" -> BGet(e.i, e.x, e.ok, e.y)
    [] e.op = "bhasall" -> BHasAll(e.i, e.n, e.hs, e.y)
    [] e.op = "bview" -> BView(e.i, e.q)
    [] e.op = "bfinish" -> BFinish(e.i, e.o, e.n) /\ Seen(e)
    \* ---- iterators
    [] e.op = "inew" -> INew(e.i, e.a)
    [] e.op = "iord" -> IOrd(e.i, e.a, e.f)
    [] e.op = "inext" -> INext(e.i, e.ok, e.r) /\ e.z
    [] e.op = "ival" -> IVal(e.i, e.r)
    \* "panic", "hang", "late", "stray", "race", "crash", ...: no step
    [] OTHER -> FALSE

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Event(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* The whole file was consumed (each event is one step; line 1 is the header).
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d = Len(Trace) THEN TRUE
  ELSE Print(<<"REJECTED-AT", d + 1>>, FALSE)

\* Printing the state before a rejected line (used for diagnosis only).
ShowState == IF l = LastOK THEN Print(<<"STATE", reg, bld, itr>>, TRUE) ELSE TRUE
=============================================================================
