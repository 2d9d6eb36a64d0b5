---------------------------- MODULE DequeTrace ----------------------------
(* Accepts a recorded run of a real deque iff it is a behaviour of Deque. *)
EXTENDS Deque, TLC, Json, IOUtils

VARIABLE l
tvars == <<Q, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "enqfront"  -> EnqFront(e[2])
    [] e[1] = "enqback"   -> EnqBack(e[2])
    [] e[1] = "push"      -> Push(e[2])
    [] e[1] = "deqfront"  -> DeqFront
    [] e[1] = "deqback"   -> DeqBack
    [] e[1] = "pop"       -> Pop
    [] e[1] = "first"     -> First
    [] e[1] = "last"      -> Last
    [] e[1] = "has"       -> Has(e[2])
    [] e[1] = "new"       -> Step(e, <<"ok">>, << >>)
    [] e[1] = "OBS"       -> Step(e, Observe(Q), Q)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<Q, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
