--------------------------- MODULE TrieSpecTrace --------------------------
(* Accepts a recorded run of a real trie iff it is a behaviour of TrieSpec;  *)
(* "SHAPE" is the drawing of the trie.                                       *)
EXTENDS TrieSpec, TrieShape, TLC, Json, IOUtils

VARIABLE l
tvars == <<m, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Stored(f) == LET u == Under(f, << >>, 1, W) IN [i \in 1..Len(u) |-> u[i][1]]

Call(e, r) ==
  CASE e[1] = "put"       -> Put(e[2], e[3])
    [] e[1] = "get"       -> Get(e[2])
    [] e[1] = "has"       -> Has(e[2])
    [] e[1] = "remove"    -> Remove(e[2])
    [] e[1] = "prefix"    -> Prefix(e[2])
    [] e[1] = "badput"    -> BadPut(e[2])
    [] e[1] = "badget"    -> BadGet(e[2])
    [] e[1] = "badhas"    -> BadHas(e[2])
    [] e[1] = "badremove" -> BadRemove(e[2])
    [] e[1] = "new"       -> Step(e, <<"ok">>, [i \in Ix |-> 0])
    [] e[1] = "OBS"       -> Step(e, Observe(m), m)
    [] e[1] = "SHAPE"     -> (WellDrawn(r[2], Stored(m)) = TRUE) /\ Step(e, r, m)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e, Trace[l].r)
         /\ (Trace[l].e[1] \in {"new", "OBS", "SHAPE"} \/ ev' = Trace[l].e)   \* the word is the one its index names
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<m, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
===========================================================================
