--------------------------- MODULE MapSetTrace ----------------------------
(* Accepts a recorded run of a real map set iff it is a behaviour of MapSet. *)
EXTENDS MapSet, TLC, Json, IOUtils

VARIABLE l
tvars == <<m, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "put"      -> Put(e[2], e[3])
    [] e[1] = "get"      -> Get(e[2])
    [] e[1] = "has"      -> Has(e[2])
    [] e[1] = "remove"   -> Remove(e[2])
    [] e[1] = "size"     -> SizeOp
    [] e[1] = "add"      -> Add(e[2], e[3])
    [] e[1] = "item"     -> Item(e[2])
    [] e[1] = "delete"   -> Delete(e[2])
    [] e[1] = "iteme"    -> ItemE(e[2])
    [] e[1] = "deletee"  -> DeleteE(e[2])
    [] e[1] = "hase"     -> HasE(e[2])
    [] e[1] = "addbare"  -> AddBare(e[2])
    [] e[1] = "new"      -> Step(e, <<"ok">>, [k \in Keys |-> None])
    [] e[1] = "OBS"      -> Step(e, Observe(m), m)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<m, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
