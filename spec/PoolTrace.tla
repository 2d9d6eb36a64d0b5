----------------------------- MODULE PoolTrace ------------------------------
(* Accepts the recorded history of a real pool iff it is a behaviour of      *)
(* PoolSpec. The internal steps are not in the record. While no WaitCount is *)
(* in progress nobody can tell when they happen, so they are taken as late   *)
(* as possible, together with the event that needs them; while one is in     *)
(* progress every interleaving of them is tried.                             *)
EXTENDS PoolSpec, Sequences, TLC, Json, IOUtils

CONSTANT MaxT
TTasks == 1..MaxT
TCounters == 1..2

VARIABLE l, nw    \* position; workers of the pool in this part of the record
tvars == <<d, f, cnt, b, wc, lock, sc, sr, pl, ps, l, nw>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* once a WaitCount has its number nothing else matters to it *)
Counting == \E c \in Counters : wc[c][1] \in {"called", "waiting", "woken"}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Without(_, _)
(* S without its k least members *)
Without(S, k) == IF k = 0 THEN S ELSE Without(S \ {Least(S)}, k - 1)

LazyStart(t) ==
  LET e    == Ended \cap cnt
      need == Cardinality(Running) + Cardinality(e) + b + 1
      k    == IF need > nw THEN need - nw ELSE 0     \* workers that must be done with their last function
      kb   == IF k < b THEN k ELSE b
  IN /\ f[t] = "no" /\ d[t] \in {"called", "ok"} /\ ~lock /\ ~sr
     /\ k - kb <= Cardinality(e)
     /\ f' = [f EXCEPT ![t] = "running"]
     /\ cnt' = (cnt \ (e \ Without(e, k - kb))) \cup {t}
     /\ b' = b - kb /\ UNCHANGED <<d, wc, lock, sc, sr, pl, ps>>
LazyOk(t) == /\ d[t] = "called" /\ (t \in cnt \/ f[t] = "ended" \/ (~lock /\ ~sr))
             /\ d' = [d EXCEPT ![t] = "ok"]
             /\ cnt' = IF f[t] = "no" THEN cnt \cup {t} ELSE cnt
             /\ UNCHANGED <<f, b, wc, lock, sc, sr, pl, ps>>
LazyDrain == /\ cnt \subseteq Ended /\ cnt' = {} /\ b' = b + Cardinality(cnt)
LazyStop == ps > 0 /\ ps' = ps - 1 /\ sr' = TRUE /\ LazyDrain /\ UNCHANGED <<d, f, wc, lock, sc, pl>>
LazyLock == pl > 0 /\ pl' = pl - 1 /\ ~lock /\ lock' = TRUE /\ LazyDrain /\ UNCHANGED <<d, f, wc, sc, sr, ps>>
(* all that was going to happen has happened *)
LazyQuiet == /\ cnt' = cnt \ Ended /\ b' = 0 /\ UNCHANGED <<d, f, wc, lock, sc, sr, pl, ps>>
             /\ Quiet'

BusyStart(t) == /\ Cardinality(Running) + Cardinality(Ended \cap cnt) + b < nw
                /\ Start(t)

Event(e) ==
  CASE e[1] = "docall"    -> DoCall(e[2])
    [] e[1] = "dook"      -> IF Counting THEN DoOk(e[2]) ELSE LazyOk(e[2])
    [] e[1] = "doerr"     -> DoErr(e[2])
    [] e[1] = "start"     -> IF Counting THEN BusyStart(e[2]) ELSE LazyStart(e[2])
    [] e[1] = "end"       -> End(e[2])
    [] e[1] = "stopcall"  -> StopCall
    [] e[1] = "stopret"   -> IF Counting THEN StopRet ELSE LazyStop
    [] e[1] = "lockcall"  -> LockCall
    [] e[1] = "lockret"   -> IF Counting THEN LockRet ELSE LazyLock
    [] e[1] = "unlock"    -> UnlockCall
    [] e[1] = "countcall" -> CountCall(e[2])
    [] e[1] = "countret"  -> wc[e[2]] = <<"got", e[3]>> /\ CountRet(e[2])
    [] e[1] = "quiet"     -> IF Counting THEN Quiet /\ UNCHANGED pvars ELSE LazyQuiet
    [] e[1] = "lost"      -> FALSE
    (* the run is over: everything has returned and was drained *)
    [] e[1] = "over"      -> /\ \A t \in Tasks : d[t] # "called" /\ (d[t] = "ok" => f[t] = "ended")
                             /\ UNCHANGED pvars

(* the functions that can be told apart from one another only by being there *)
Internal == /\ Counting
            /\ \/ \E t \in Tasks : d[t] = "called" /\ Inc(t)
               \/ (Ended \cap cnt # {} /\ Dec(Least(Ended \cap cnt)))
               \/ Wake
               \/ \E c \in Counters : CountZero(c) \/ CountWait(c) \/ CountRead(c)

Fresh == /\ d' = [t \in Tasks |-> "no"] /\ f' = [t \in Tasks |-> "no"] /\ cnt' = {} /\ b' = 0
         /\ wc' = [c \in Counters |-> <<"idle">>] /\ lock' = FALSE /\ sc' = FALSE /\ sr' = FALSE
         /\ pl' = 0 /\ ps' = 0

TInit == PInit /\ l = 1 /\ nw = 1
TNext == \/ /\ l <= Len(Trace) /\ l' = l + 1
            /\ IF Trace[l].e[1] = "new" THEN Fresh /\ nw' = Trace[l].e[3]
               ELSE Event(Trace[l].e) /\ nw' = nw
         \/ Internal /\ UNCHANGED <<l, nw>>
TSpec == TInit /\ [][TNext]_tvars
TView == tvars

ASSUME TLCSet(42, 0)
Mark == l > TLCGet(42) => TLCSet(42, l)
Accepted == IF TLCGet(42) = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet(42)>>, FALSE)
=============================================================================
