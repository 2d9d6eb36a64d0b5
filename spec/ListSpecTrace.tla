-------------------------- MODULE ListSpecTrace ---------------------------
(* Accepts a recorded run of a real list iff it is a behaviour of ListSpec. *)
EXTENDS ListSpec, TLC, Json, IOUtils

VARIABLE l
tvars == <<L, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "append"     -> AppendOp(e[2])
    [] e[1] = "push"       -> Push(e[2])
    [] e[1] = "insert"     -> Insert(e[2], e[3])
    [] e[1] = "set"        -> Set(e[2], e[3])
    [] e[1] = "remove"     -> Remove(e[2])
    [] e[1] = "pop"        -> Pop
    [] e[1] = "clear"      -> Clear
    [] e[1] = "extend"     -> Extend(e[2])
    [] e[1] = "get"        -> Get(e[2])
    [] e[1] = "has"        -> Has(e[2])
    [] e[1] = "roundtrip"  -> RoundTrip(e[2])
    [] e[1] = "badwrite"   -> BadWrite
    [] e[1] = "badread"    -> BadRead
    [] e[1] = "badsize"    -> BadSize(e[2])
    [] e[1] = "less"       -> InRange(L, e[2]) /\ InRange(L, e[3]) /\ Less(e[2], e[3])
    [] e[1] = "swap"       -> InRange(L, e[2]) /\ InRange(L, e[3]) /\ Swap(e[2], e[3])
    [] e[1] = "sort"       -> Sort
    [] e[1] = "new"        -> Step(e, <<"ok">>, << >>)
    [] e[1] = "OBS"        -> Step(e, Observe(L), L)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<L, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
