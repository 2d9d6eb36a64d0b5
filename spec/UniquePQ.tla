----------------------------- MODULE UniquePQ -----------------------------
(* The unique priority queue: pr[x] is the priority item x was first queued  *)
(* with, 0 when it is not queued.                                            *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS P, X, Min

VARIABLES pr, ev, res
vars == <<pr, ev, res>>

Prios == 1..P
Items == 1..X
Queued(f) == {x \in Items : f[x] > 0}
Size(f) == Cardinality(Queued(f))
Tops(f) == LET used == {f[x] : x \in Queued(f)}
               best == CHOOSE p \in used : \A q \in used : IF Min THEN p <= q ELSE p >= q
           IN {x \in Queued(f) : f[x] = best}

TypeOK == pr \in [Items -> 0..P]

Init == pr = [x \in Items |-> 0] /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, r, f) == ev' = op /\ res' = r /\ pr' = f

Added(p, x) == IF pr[x] > 0 THEN pr ELSE [pr EXCEPT ![x] = p]
Add(p, x)  == Step(<<"add", p, x>>, <<"ok">>, Added(p, x))
Push(p, x) == Step(<<"push", p, x>>, <<"ok">>, Added(p, x))
Pop  == IF Size(pr) = 0 THEN Step(<<"pop">>, <<"nil">>, pr)
        ELSE \E x \in Tops(pr) : Step(<<"pop">>, <<"ok", x>>, [pr EXCEPT ![x] = 0])
Peek == IF Size(pr) = 0 THEN Step(<<"peek">>, <<"nil">>, pr)
        ELSE \E x \in Tops(pr) : Step(<<"peek">>, <<"ok", x>>, pr)

Next == (\E p \in Prios, x \in Items : Add(p, x) \/ Push(p, x)) \/ Pop \/ Peek
Spec == Init /\ [][Next]_vars

Observe(f) == <<Size(f), "queued">>

Frame == [][ /\ (ev'[1] \in {"add", "push"} => \A x \in Items : pr[x] > 0 => pr'[x] = pr[x])
             /\ (ev'[1] = "peek" => pr' = pr)
             /\ (ev'[1] = "pop" /\ res' # <<"nil">> => pr'[res'[2]] = 0) ]_vars
===========================================================================
