------------------------------ MODULE ExcTrace ------------------------------
(* Accepts recorded runs of random programs iff Exc gives them this log and  *)
(* outcome.                                                                  *)
EXTENDS Exc, TLC, Json, IOUtils

VARIABLE l
tvars == <<m, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e, r) ==
  CASE e[1] = "run" -> LET x == RunTimes(1, e[3], e[4])
                       IN IF HasUnspec(x) THEN Step(e, r) ELSE Step(e, <<"ok", x>>)
    [] e[1] = "new" -> Step(e, <<"ok">>)
    [] e[1] = "OBS" -> Step(e, Observe)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e, Trace[l].r)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<m, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
=============================================================================
