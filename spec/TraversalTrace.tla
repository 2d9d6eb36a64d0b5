--------------------------- MODULE TraversalTrace ---------------------------
(* Accepts recorded traversals iff they are those of Traversal. The trees of *)
(* the library itself come with the shape the recorder read off them: "avl"  *)
(* is a search tree over the given labels, "tst" a tree with children.       *)
EXTENDS Traversal, TLC, Json, IOUtils

VARIABLE l
tvars == <<m, ev, res, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

Call(e, r) ==
  CASE e[1] = "in"    -> Step(e, <<"ok", In(e[2])>>)
    [] e[1] = "pre"   -> Step(e, <<"ok", Pre(e[2])>>)
    [] e[1] = "post"  -> Step(e, <<"ok", Post(e[2])>>)
    [] e[1] = "kids"  -> Step(e, <<"ok", Kids(e[2])>>)
    [] e[1] = "npre"  -> Step(e, <<"ok", NPre(e[2])>>)
    [] e[1] = "npost" -> Step(e, <<"ok", NPost(e[2])>>)
    [] e[1] = "nkids" -> Step(e, <<"ok", NKids(e[2])>>)
    [] e[1] = "chain" -> Chain(e[2])
    [] e[1] = "new"   -> Step(e, <<"ok">>)
    [] e[1] = "OBS"   -> Step(e, Observe)
    [] e[1] = "avl"   -> LET t == r[2] IN Step(e, <<"ok", t, e[2], Pre(t), Post(t), Kids(t)>>) /\ In(t) = e[2]
    [] e[1] = "tst"   -> LET t == r[2] IN Step(e, <<"ok", t, NPre(t), NPost(t), NKids(t)>>)

TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Call(Trace[l].e, Trace[l].r)
         /\ res' = Trace[l].r
TSpec == TInit /\ [][TNext]_tvars
TView == <<m, l>>

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE Print(<<"REJECTED", TLCGet("stats").diameter>>, FALSE)
=============================================================================
