--------------------------- MODULE ErrChainTrace ---------------------------
(* Accepts a recorded run iff it is a behaviour of ErrChain. *)
EXTENDS ErrChain, TLC, Json, IOUtils

VARIABLE l
tvars == <<s, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "make"    -> Make(e[2], e[3])
    [] e[1] = "chain"   -> Chain(e[2], e[3])
    [] e[1] = "chainof" -> ChainOf(e[2], e[3])
    [] e[1] = "rethrow" -> Rethrow(e[2], e[3])
    [] e[1] = "join"    -> Join(e[2], e[3], e[4])
    [] e[1] = "drop"    -> Drop(e[2])
    [] e[1] = "new"     -> ev' = e /\ res' = <<"ok">> /\ s' = [i \in Slots |-> << >>]
    [] e[1] = "OBS"     -> ev' = e /\ res' = Observe(s) /\ s' = s

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<s, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
=============================================================================
