-------------------------- MODULE RandSourceTrace ---------------------------
(* A record holds, for each round of concurrent draws, what every goroutine  *)
(* got, in its own order; a number is recorded as the set of elements        *)
(* <<epoch, position>> it can be. Accepted iff the draws and reseedings of   *)
(* each round can be ordered into a behaviour of RandSource.                 *)
EXTENDS RandSource, TLC, Json, IOUtils

VARIABLES l, at      \* round, and how much of each goroutine's list is used
tvars == <<ep, pos, got, l, at>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Lists == Trace[l].e[2]
Item(g) == Lists[g][at[g] + 1]
Is(x) == \E i \in 1..Len(x) : x[i] = <<ep, pos + 1>>

TInit == RInit /\ l = 1 /\ at = << >>
Begin == /\ l <= Len(Trace) /\ Trace[l].e[1] = "new"
         /\ ep' = 0 /\ pos' = 0 /\ l' = l + 1
         /\ at' = IF l < Len(Trace) /\ Trace[l + 1].e[1] = "round" THEN [g \in 1..Len(Trace[l + 1].e[2]) |-> 0] ELSE << >>
InRound == l <= Len(Trace) /\ Trace[l].e[1] = "round"
Take(g) == /\ at[g] < Len(Lists[g])
           /\ at' = [at EXCEPT ![g] = @ + 1] /\ l' = l
           /\ IF Item(g)[1] = "seed" THEN ep' = ep + 1 /\ pos' = 0
              ELSE Is(Item(g)[2]) /\ pos' = pos + 1 /\ ep' = ep
Done == /\ \A g \in DOMAIN at : at[g] = Len(Lists[g])
        /\ UNCHANGED <<ep, pos>> /\ l' = l + 1
        /\ at' = IF l < Len(Trace) /\ Trace[l + 1].e[1] = "round" THEN [g \in 1..Len(Trace[l + 1].e[2]) |-> 0] ELSE << >>
TNext == got' = got /\ (Begin \/ (InRound /\ (Done \/ \E g \in DOMAIN at : Take(g))))
TSpec == TInit /\ [][TNext]_tvars
TView == <<ep, pos, l, at>>

ASSUME TLCSet(42, 0)
Mark == l > TLCGet(42) => TLCSet(42, l)
Accepted == IF TLCGet(42) = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet(42)>>, FALSE)
=============================================================================
