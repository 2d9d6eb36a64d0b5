------------------------------- MODULE Deque ------------------------------
(* The linked list (Unique = FALSE) and the unique deque (Unique = TRUE):    *)
(* a sequence with operations at both ends. The unique deque ignores items   *)
(* it already holds.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS N, X, Unique

VARIABLES Q, ev, res
vars == <<Q, ev, res>>

Items == 1..X
Member(q, x) == \E i \in 1..Len(q) : q[i] = x
NoDups == Unique => \A i, j \in 1..Len(Q) : i # j => Q[i] # Q[j]

Init == Q = << >> /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, r, q2) == ev' = op /\ res' = r /\ Q' = q2
Bool(b) == IF b THEN <<"true">> ELSE <<"false">>
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Ignored(x) == Unique /\ Member(Q, x)
Room(x) == Ignored(x) \/ Len(Q) < N

EnqFront(x) == Room(x) /\ Step(<<"enqfront", x>>, <<"ok">>, IF Ignored(x) THEN Q ELSE <<x>> \o Q)
EnqBack(x)  == Room(x) /\ Step(<<"enqback", x>>, <<"ok">>, IF Ignored(x) THEN Q ELSE Append(Q, x))
Push(x)     == Room(x) /\ Step(<<"push", x>>, <<"ok">>, IF Ignored(x) THEN Q ELSE Append(Q, x))
DeqFront == IF Q = << >> THEN Step(<<"deqfront">>, <<"err">>, Q)
            ELSE Step(<<"deqfront">>, <<"ok", Q[1]>>, Tail(Q))
DeqLast(name) == IF Q = << >> THEN Step(<<name>>, <<"err">>, Q)
                 ELSE Step(<<name>>, <<"ok", Q[Len(Q)]>>, SubSeq(Q, 1, Len(Q) - 1))
DeqBack  == DeqLast("deqback")
Pop      == DeqLast("pop")
First    == Step(<<"first">>, IF Q = << >> THEN <<"nil">> ELSE <<"ok", Q[1]>>, Q)
Last     == Step(<<"last">>, IF Q = << >> THEN <<"nil">> ELSE <<"ok", Q[Len(Q)]>>, Q)
Has(x)   == Step(<<"has", x>>, Bool(Member(Q, x)), Q)

Next == \/ \E x \in Items : EnqFront(x) \/ EnqBack(x) \/ Push(x) \/ Has(x)
        \/ DeqFront \/ DeqBack \/ Pop \/ First \/ Last
Spec == Init /\ [][Next]_vars

Observe(q) == <<Len(q), q, Reverse(q)>>

Frame == [][ /\ (res'[1] \in {"err", "nil"} => Q' = Q)
             /\ (ev'[1] \in {"first", "last", "has"} => Q' = Q)
             /\ (ev'[1] = "enqfront" => Q'[1] = ev'[2] \/ Q' = Q)
             /\ Len(Q') <= Len(Q) + 1 /\ Len(Q) <= Len(Q') + 1 ]_vars
===========================================================================
