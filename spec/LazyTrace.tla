------------------------------ MODULE LazyTrace ------------------------------
(***************************************************************************)
(* Trace validation for lazy sets (see /verif/harness/lazyset).            *)
(***************************************************************************)
EXTENDS Lazy, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Head1 == Trace[1]
LastOK == atoi(IOEnv.SHOW)
VARIABLE l
tvars == <<lz, lit, l>>
TraceInit == LFresh(Head1.nr, Head1.ni) /\ l = 2

Event(e) ==
  CASE e.op = "reset" -> LReset
    [] e.op = "lnew" -> LNew(e.o, e.q)
    [] e.op = "lwith" -> LWith(e.o, e.a, e.x)
    [] e.op = "lwithout" -> LWithout(e.o, e.a, e.x)
    [] e.op = "lunion" -> LUnion(e.o, e.a, e.b)
    [] e.op = "linter" -> LInter(e.o, e.a, e.b)
    [] e.op = "ldiff" -> LDiff(e.o, e.a, e.b)
    [] e.op = "lsym" -> LSymDiff(e.o, e.a, e.b)
    [] e.op = "lwhere" -> Defined(e.a, e.d) /\ LWhere(e.o, e.a, e.how, e.q, e.x)
    [] e.op = "lmap" -> LMap(e.o, e.a, e.how, e.q, e.x)
    [] e.op = "lpow" -> LPow(e.o, e.a)
    [] e.op = "lsame" -> LSame(e.o, e.a)
    [] e.op = "lempty" -> LEmpty(e.a, e.r)
    [] e.op = "lfempty" -> LFastEmpty(e.a, e.ok, e.r)
    [] e.op = "lcount" -> LCount(e.a, e.n)
    [] e.op = "lfcount" -> LFastCount(e.a, e.ok, e.n)
    [] e.op = "lupto" -> LCountUpTo(e.a, e.y, e.n)
    [] e.op = "lfupto" -> LFastCountUpTo(e.a, e.y, e.ok, e.n)
    [] e.op = "lhas" -> LHas(e.a, e.x, e.r)
    [] e.op = "lfhas" -> LFastHas(e.a, e.x, e.ok, e.r)
    [] e.op = "lalien" -> LHasAlien(e.a, e.r)
    [] e.op = "lequal" -> LEqual(e.a, e.b, e.r, e.z)
    [] e.op = "lsubset" -> LSubset(e.a, e.b, e.r)
    [] e.op = "lhashes" -> LHashes(e.hs)
    [] e.op = "lelems" -> LElems(e.a, e.q)
    [] e.op = "lrange" -> LRange(e.i, e.a)
    [] e.op = "lval" -> LVal(e.i, e.x)
    [] e.op = "lnext" -> LNext(e.i, e.ok, e.x)
    [] OTHER -> FALSE

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Event(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED-AT", d + 1>>, FALSE)
ShowState == IF l = LastOK THEN Print(<<"STATE", lz, lit>>, TRUE) ELSE TRUE
=============================================================================
