----------------------------- MODULE PrioQueue ----------------------------
(* The heap: a bag of items with priorities; n[p][x] copies of item x at     *)
(* priority p. Which of several items of the extreme priority comes first is *)
(* left open.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS N, P, X, Min    \* Min: smallest priority first

VARIABLES n, ev, res
vars == <<n, ev, res>>

Prios == 1..P
Items == 1..X
Empty == [p \in Prios |-> [x \in Items |-> 0]]

RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Count(f, x) == SumTo([p \in Prios |-> f[p][x]], P)
Size(f) == SumTo([x \in Items |-> Count(f, x)], X)
Used(f) == {p \in Prios : \E x \in Items : f[p][x] > 0}
Best(f) == LET u == Used(f) IN CHOOSE p \in u : \A q \in u : IF Min THEN p <= q ELSE p >= q
Tops(f) == LET b == Best(f) IN {x \in Items : f[b][x] > 0}

TypeOK == \A p \in Prios, x \in Items : n[p][x] \in 0..N

Init == n = Empty /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, r, n2) == ev' = op /\ res' = r /\ n' = n2

Push(p, x) == /\ Size(n) < N
              /\ Step(<<"push", p, x>>, <<"ok">>, [n EXCEPT ![p][x] = @ + 1])
Pop  == IF Size(n) = 0 THEN Step(<<"pop">>, <<"nil">>, n)
        ELSE \E x \in Tops(n) : Step(<<"pop">>, <<"ok", x>>, [n EXCEPT ![Best(n)][x] = @ - 1])
Peek == IF Size(n) = 0 THEN Step(<<"peek">>, <<"nil">>, n)
        ELSE \E x \in Tops(n) : Step(<<"peek">>, <<"ok", x>>, n)

Next == (\E p \in Prios, x \in Items : Push(p, x)) \/ Pop \/ Peek
Spec == Init /\ [][Next]_vars

(* size, copies of each item, Verify *)
Observe(f) == <<Size(f), [x \in Items |-> Count(f, x)], <<"ok">> >>

Conserved == [][ /\ (ev'[1] = "push" => Size(n') = Size(n) + 1)
                 /\ (ev'[1] = "pop" /\ res' # <<"nil">> => Size(n') = Size(n) - 1)
                 /\ (ev'[1] = "peek" => n' = n) ]_vars
===========================================================================
