-------------------------- MODULE LookupCostTrace --------------------------
(* Accepts a recorded run of a real collection iff every call returned what  *)
(* FiniteMap says and cost no more than LookupCost allows.                   *)
EXTENDS LookupCost, TLC, Json, IOUtils

VARIABLE l
tvars == <<cvars, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e, c) ==
  CASE e[1] = "put"    -> Paid(Put(e[2], e[3]), e[2], c)
    [] e[1] = "get"    -> Paid(Get(e[2]), e[2], c)
    [] e[1] = "has"    -> Paid(Has(e[2]), e[2], c)
    [] e[1] = "remove" -> Paid(Remove(e[2]), e[2], c)

TInit == CInit /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ IF Trace[l].e[1] = "new"
            THEN /\ Step(Trace[l].e, <<"ok">>, [k \in Keys |-> None])
                 /\ Trace[l].r = <<"ok">>
                 /\ peak' = 0 /\ size' = 0 /\ calls' = 0 /\ total' = 0
            ELSE /\ Len(Trace[l].r) = 2      \* not a panic
                 /\ Call(Trace[l].e, Trace[l].r[2])
                 /\ res' = Trace[l].r[1]
TSpec == TInit /\ [][TNext]_tvars
TView == l

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
============================================================================
