-------------------------- MODULE UniquePQTrace ---------------------------
(* Accepts a recorded run of a real queue iff it is a behaviour of UniquePQ. *)
EXTENDS UniquePQ, TLC, Json, IOUtils

VARIABLE l
tvars == <<pr, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "add"   -> Add(e[2], e[3])
    [] e[1] = "push"  -> Push(e[2], e[3])
    [] e[1] = "pop"   -> Pop
    [] e[1] = "peek"  -> Peek
    [] e[1] = "new"   -> Step(e, <<"ok">>, [x \in Items |-> 0])
    [] e[1] = "OBS"   -> Step(e, Observe(pr), pr)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<pr, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
