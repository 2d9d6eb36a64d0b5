--------------------------- MODULE CopySpecTrace --------------------------
(* Accepts a recorded run of a collection and copies made of it iff it is a  *)
(* behaviour of CopySpec.                                                    *)
EXTENDS CopySpec, TLC, Json, IOUtils

VARIABLE l
tvars == <<S, C, made, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "copy"       -> MakeCopy
    [] e[1] = "append"     -> AppendOp(e[2], e[3])
    [] e[1] = "insert"     -> Insert(e[2], e[3], e[4])
    [] e[1] = "set"        -> Set(e[2], e[3], e[4])
    [] e[1] = "remove"     -> Remove(e[2], e[3])
    [] e[1] = "clear"      -> Clear(e[2])
    [] e[1] = "add"        -> Add(e[2], e[3])
    [] e[1] = "delete"     -> Delete(e[2], e[3])
    [] e[1] = "sset"       -> SSet(e[2], e[3], e[4])
    [] e[1] = "sappend"    -> SAppend(e[2], e[3])
    [] e[1] = "scut"       -> SCut(e[2])
    [] e[1] = "new"        -> ev' = e /\ res' = <<"ok">> /\ S' = << >> /\ C' = << >> /\ made' = 0
    [] e[1] = "OBS"        -> ev' = e /\ res' = Observe /\ UNCHANGED <<S, C, made>>

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<S, C, made, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
