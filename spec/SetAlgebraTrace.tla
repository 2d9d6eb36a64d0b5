------------------------- MODULE SetAlgebraTrace --------------------------
(* Accepts a recorded run of real sets iff it is a behaviour of SetAlgebra. *)
EXTENDS SetAlgebra, TLC, Json, IOUtils

VARIABLE l
tvars == <<h, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "add"        -> Add(e[2], e[3])
    [] e[1] = "delete"     -> Delete(e[2], e[3])
    [] e[1] = "has"        -> Has(e[2], e[3])
    [] e[1] = "union"      -> Union(e[2], e[3])
    [] e[1] = "intersect"  -> Intersect(e[2], e[3])
    [] e[1] = "subtract"   -> Subtract(e[2], e[3])
    [] e[1] = "subset"     -> Subset(e[2], e[3])
    [] e[1] = "superset"   -> Superset(e[2], e[3])
    [] e[1] = "psubset"    -> PSubset(e[2], e[3])
    [] e[1] = "psuperset"  -> PSuperset(e[2], e[3])
    [] e[1] = "overlap"    -> Overlap(e[2], e[3])
    [] e[1] = "unionq"     -> UnionQ(e[2], e[3])
    [] e[1] = "intersectq" -> IntersectQ(e[2], e[3])
    [] e[1] = "subtractq"  -> SubtractQ(e[2], e[3])
    [] e[1] = "new"        -> Step(e, <<"ok">>, <<None, None, None>>)
    [] e[1] = "OBS"        -> Step(e, Observe(h), h)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<h, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
