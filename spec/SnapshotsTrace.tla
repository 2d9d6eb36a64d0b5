-------------------------- MODULE SnapshotsTrace --------------------------
(* Accepts a recorded run of a real immutable AVL tree, the nodes and the    *)
(* iterator taken from it iff it is a behaviour of Snapshots. A "read" event *)
(* is what a concurrent reader of a held node saw.                           *)
EXTENDS Snapshots, TLC, Json, IOUtils

VARIABLE l
tvars == <<m, sn, it, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e) ==
  CASE e[1] = "put"     -> Put(e[2], e[3]) /\ UNCHANGED <<sn, it>>
    [] e[1] = "remove"  -> Remove(e[2]) /\ UNCHANGED <<sn, it>>
    [] e[1] = "snap"    -> Snap(e[2])
    [] e[1] = "nput"    -> NPut(e[2], e[3], e[4], e[5])
    [] e[1] = "nremove" -> NRemove(e[2], e[3], e[4])
    [] e[1] = "nget"    -> NGet(e[2], e[3])
    [] e[1] = "nhas"    -> NHas(e[2], e[3])
    [] e[1] = "iter"    -> IterOf(e[2])
    [] e[1] = "next"    -> NextItem
    [] e[1] = "read"    -> Step(e, Observe(sn[e[2]]), m) /\ UNCHANGED <<sn, it>>
    [] e[1] = "new"     -> Step(e, <<"ok">>, Nothing) /\ sn' = [j \in Slots |-> Nothing] /\ it' = <<0, << >> >>
    [] e[1] = "OBS"     -> Step(e, ObserveS, m) /\ UNCHANGED <<sn, it>>

TInit == InitS /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<m, sn, it, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
