-------------------------- MODULE RandSourceGraph ---------------------------
(* Calls made one after the other: the n-th call after seeding with s gives  *)
(* what the n-th call on a plain generator with seed s gives.                *)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils

CONSTANTS Seeds, Methods, MaxCalls
VARIABLES q, ev, res      \* q: <<seed, calls since seeding>>
vars == <<q, ev, res>>

Step(e, r, t) == ev' = e /\ res' = r /\ q' = t
Init == q = <<1, 0>> /\ ev = <<"new">> /\ res = <<"ok">>
Next == \/ /\ q[2] < MaxCalls
           /\ \E m \in 1..Methods : Step(<<"draw", m>>, <<"ok", q[1], q[2] + 1>>, <<q[1], q[2] + 1>>)
        \/ \E t \in 1..Seeds : Step(<<"seed", t>>, <<"ok">>, <<t, 0>>)
Spec == Init /\ [][Next]_vars

View == q
Emit == CSVWrite("%1$s", <<ToJson([s |-> q, e |-> ev', r |-> res', t |-> q'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> q, o |-> <<"ok">>, i |-> TLCGet("level")])>>, IOEnv.OUT)
=============================================================================
