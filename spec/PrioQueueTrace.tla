-------------------------- MODULE PrioQueueTrace --------------------------
(* Accepts a recorded run of a real heap iff it is a behaviour of PrioQueue. *)
EXTENDS PrioQueue, TLC, Json, IOUtils

VARIABLE l
tvars == <<n, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "push"  -> Push(e[2], e[3])
    [] e[1] = "pop"   -> Pop
    [] e[1] = "peek"  -> Peek
    [] e[1] = "new"   -> Step(e, <<"ok">>, Empty)
    [] e[1] = "OBS"   -> Step(e, Observe(n), n)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<n, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
