------------------------- MODULE MapAlgebraTrace --------------------------
(* Accepts a recorded run of real map sets iff it is a behaviour of          *)
(* MapAlgebra.                                                               *)
EXTENDS MapAlgebra, TLC, Json, IOUtils

VARIABLE l
tvars == <<h, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "put"        -> Put(e[2], e[3], e[4])
    [] e[1] = "remove"     -> Remove(e[2], e[3])
    [] e[1] = "get"        -> Get(e[2], e[3])
    [] e[1] = "union"      -> Union(e[2], e[3])
    [] e[1] = "intersect"  -> Intersect(e[2], e[3])
    [] e[1] = "subtract"   -> Subtract(e[2], e[3])
    [] e[1] = "from"       -> From(e[2])
    [] e[1] = "subset"     -> Subset(e[2], e[3])
    [] e[1] = "superset"   -> Superset(e[2], e[3])
    [] e[1] = "psubset"    -> PSubset(e[2], e[3])
    [] e[1] = "psuperset"  -> PSuperset(e[2], e[3])
    [] e[1] = "new"        -> Step(e, <<"ok">>, <<None, None, None>>)
    [] e[1] = "OBS"        -> Step(e, Observe(h), h)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<h, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
