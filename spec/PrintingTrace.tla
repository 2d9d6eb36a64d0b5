--------------------------- MODULE PrintingTrace --------------------------
(* Accepts recorded printouts iff they are what Printing says.               *)
EXTENDS Printing, Json, IOUtils

VARIABLE l
tvars == <<s, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "print" -> Show(e[2], e[3], e[4])
    [] e[1] = "new"   -> ev' = e /\ res' = <<"ok">> /\ s' = s

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == l

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
===========================================================================
