--------------------------- MODULE MultiMapTrace --------------------------
(* Accepts a recorded run of a real B+ tree iff it is a behaviour of         *)
(* MultiMap.                                                                 *)
EXTENDS MultiMap, TLC, Json, IOUtils

VARIABLE l
tvars == <<c, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "add"         -> Add(e[2], e[3])
    [] e[1] = "replace"     -> Replace(e[2], e[3], e[4])
    [] e[1] = "removewhere" -> RemoveWhere(e[2], e[3])
    [] e[1] = "has"         -> Has(e[2])
    [] e[1] = "count"       -> CountOp(e[2])
    [] e[1] = "find"        -> Find(e[2])
    [] e[1] = "size"        -> SizeOp
    [] e[1] = "range"       -> Range(e[2], e[3])
    [] e[1] = "new"         -> Step(e, <<"ok">>, Empty)
    [] e[1] = "OBS"         -> Step(e, Observe(c), c)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<c, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
