------------------------------- MODULE RelTrace ------------------------------
(***************************************************************************)
(* Trace validation for pkg/rel (see /verif/harness/rel).                  *)
(***************************************************************************)
EXTENDS Rel, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Head1 == Trace[1]
LastOK == atoi(IOEnv.SHOW)
VARIABLE l
TraceInit == RFresh(Head1.nr) /\ l = 2
Seen(e) == RSeen(e.o, e.c, e.e, e.it)
Event(e) ==
  CASE e.op = "reset" -> RReset
    [] e.op = "rnew" -> RNew(e.o, e.h, e.q) /\ Seen(e)
    [] e.op = "rjoin" -> RJoin(e.o, e.as) /\ Seen(e)
    [] e.op = "rprod" -> RProduct(e.o, e.as) /\ Seen(e)
    [] e.op = "rproject" -> RProject(e.o, e.a, e.q) /\ Seen(e)
    [] e.op = "rnest" -> RNest(e.o, e.a, e.g) /\ Seen(e)
    [] e.op = "runnest" -> RUnnest(e.o, e.a, e.x) /\ Seen(e)
    [] e.op = "rset" -> RSetOp(e.o, e.how, e.a, e.b) /\ Seen(e)
    [] e.op = "rwith" -> RWith(e.o, e.a, e.t) /\ Seen(e)
    [] e.op = "rwithout" -> RWithout(e.o, e.a, e.t) /\ Seen(e)
    [] e.op = "rhas" -> RHas(e.a, e.t, e.r)
    [] e.op = "requal" -> REqual(e.a, e.b, e.r)
    [] e.op = "rhash" -> RHash(e.hs)
    [] e.op = "rall" -> RAll(e.os)
    [] OTHER -> FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Event(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_<<rl, l>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED-AT", d + 1>>, FALSE)
ShowState == IF l = LastOK THEN Print(<<"STATE", rl>>, TRUE) ELSE TRUE
=============================================================================
