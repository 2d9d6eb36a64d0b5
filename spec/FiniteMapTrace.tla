-------------------------- MODULE FiniteMapTrace --------------------------
(* Accepts a recorded run of a real map iff it is a behaviour of FiniteMap.  *)
(* Every event names the call, its arguments and its result; "new" starts a  *)
(* fresh map, "OBS" is a full observation, "SHAPE" the tree the map is       *)
(* stored in (only recorded for binary search trees).                        *)
EXTENDS FiniteMap, AvlShape, TLC, Json, IOUtils

VARIABLE l
tvars == <<m, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e, r) ==
  CASE e[1] = "put"    -> Put(e[2], e[3])
    [] e[1] = "get"    -> Get(e[2])
    [] e[1] = "has"    -> Has(e[2])
    [] e[1] = "remove" -> Remove(e[2])
    [] e[1] = "size"   -> SizeOp
    [] e[1] = "new"    -> Step(e, <<"ok">>, [k \in Keys |-> None])
    [] e[1] = "OBS"    -> Step(e, Observe(m), m)
    [] e[1] = "SHAPE"  -> /\ WellShaped(r[2], Present(m))
                          /\ Step(e, r, m)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e, Trace[l].r)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<m, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
