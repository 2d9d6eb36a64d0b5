--------------------------- MODULE AvlShapeCheck ---------------------------
(* Judges the trees of the real code: one line per distinct pair of contents *)
(* (s, the spec's map) and shape (h) found by the product exploration.       *)
EXTENDS Integers, Sequences, FiniteSets, AvlShape, TLC, Json, IOUtils

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
KeysOf(s) == {k \in 1..Len(s) : s[k] # 0}

SInit == l = 1
SNext == /\ l <= Len(Trace)
         /\ WellShaped(Trace[l].h, KeysOf(Trace[l].s))
         (* the depth bound users rely on, implied by AvlHeight *)
         /\ LET t == Trace[l].h
                h == AvlHeight(t, 0 - 1000000, 1000000)
            IN NodeCount(t) >= MinNodes(h)
         /\ l' = l + 1
SSpec == SInit /\ [][SNext]_l

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
