----------------------------- MODULE ErrChain ------------------------------
(* Errors and exceptions that collect causes. s[i] is the list of causes of  *)
(* the i-th object; a cause is a number, the driver makes an error of it.    *)
EXTENDS Naturals, Sequences

CONSTANTS N,   \* objects
          C,   \* causes
          L    \* longest list

VARIABLES s, ev, res
vars == <<s, ev, res>>
Slots == 1..N
TypeOK == \A i \in Slots : Len(s[i]) <= L /\ \A j \in 1..Len(s[i]) : s[i][j] \in 1..C

Init == s = [i \in Slots |-> << >>] /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, s2) == ev' = op /\ res' = <<"ok">> /\ s' = s2

Make(i, c)    == Step(<<"make", i, c>>, [s EXCEPT ![i] = <<c>>])
Chain(i, c)   == Step(<<"chain", i, c>>, [s EXCEPT ![i] = Append(@, c)])
(* the very error last added to j once more *)
ChainOf(i, j) == Len(s[j]) > 0 /\ Step(<<"chainof", i, j>>, [s EXCEPT ![i] = Append(@, s[j][Len(s[j])])])
Rethrow(i, c) == Step(<<"rethrow", i, c>>, [s EXCEPT ![i] = Append(@, c)])
Join(i, j, k) == Step(<<"join", i, j, k>>, [s EXCEPT ![k] = s[i] \o s[j]])
Drop(i)       == Step(<<"drop", i>>, [s EXCEPT ![i] = << >>])

Next == \/ \E i \in Slots, c \in 1..C : Make(i, c) \/ (Len(s[i]) < L /\ (Chain(i, c) \/ Rethrow(i, c)))
        \/ \E i \in Slots, j \in Slots, k \in Slots : Len(s[i]) + Len(s[j]) <= L /\ Join(i, j, k)
        \/ \E i \in Slots, j \in Slots : Len(s[i]) < L /\ ChainOf(i, j)
        \/ \E i \in Slots : Drop(i)
Spec == Init /\ [][Next]_vars

(* no call touches another object; lists only grow, except that an object is *)
(* replaced by a new one                                                     *)
Frame == [][ /\ \A i \in Slots : s'[i] # s[i] => i = (IF ev'[1] = "join" THEN ev'[4] ELSE ev'[2])
             /\ (ev'[1] \in {"chain", "chainof", "rethrow"} => SubSeq(s'[ev'[2]], 1, Len(s[ev'[2]])) = s[ev'[2]]) ]_vars
Observe(q) == q
=============================================================================
