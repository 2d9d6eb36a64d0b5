------------------------- MODULE SortedSpecTrace --------------------------
(* Accepts a recorded run of a real sorted list iff it is a behaviour of SortedSpec. *)
EXTENDS SortedSpec, TLC, Json, IOUtils

VARIABLE l
tvars == <<L, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "add"        -> Add(e[2])
    [] e[1] = "delete"     -> Delete(e[2])
    [] e[1] = "remove"     -> Remove(e[2])
    [] e[1] = "clear"      -> Clear
    [] e[1] = "extend"     -> Extend(e[2])
    [] e[1] = "find"       -> Find(e[2])
    [] e[1] = "has"        -> Has(e[2])
    [] e[1] = "item"       -> Item(e[2])
    [] e[1] = "get"        -> Get(e[2])
    [] e[1] = "roundtrip"  -> RoundTrip(e[2])
    [] e[1] = "badwrite"   -> BadWrite
    [] e[1] = "badread"    -> BadRead
    [] e[1] = "new"        -> Step(e, <<"ok">>, << >>)
    [] e[1] = "OBS"        -> Step(e, Observe(L), L)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<L, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
