------------------------- MODULE OrderTheoryTrace -------------------------
(* Accepts recorded comparisons iff they are those of OrderTheory. *)
EXTENDS OrderTheory, TLC, Json, IOUtils

VARIABLE l
tvars == <<m, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "cmp"   -> Cmp(e[2], e[3])
    [] e[1] = "cross" -> Cross(e[2], e[3])
    [] e[1] = "seq"   -> CmpSeq(e[2], e[3])
    [] e[1] = "new"   -> Step(e, <<"ok">>)
    [] e[1] = "OBS"   -> Step(e, Observe)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<m, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
============================================================================
