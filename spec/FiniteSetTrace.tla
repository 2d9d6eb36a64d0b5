-------------------------- MODULE FiniteSetTrace --------------------------
(* Accepts a recorded run of a real set iff it is a behaviour of FiniteSet. *)
EXTENDS FiniteSet, TLC, Json, IOUtils

VARIABLE l
tvars == <<s, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "add"     -> Add(e[2])
    [] e[1] = "delete"  -> Delete(e[2])
    [] e[1] = "has"     -> Has(e[2])
    [] e[1] = "size"    -> SizeOp
    [] e[1] = "extend"  -> Extend(e[2])
    [] e[1] = "item"    -> Item(e[2])
    [] e[1] = "random"  -> Random
    [] e[1] = "new"     -> Step(e, <<"ok">>, [i \in Items |-> 0])
    [] e[1] = "OBS"     -> Step(e, Observe(s), s)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<s, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
