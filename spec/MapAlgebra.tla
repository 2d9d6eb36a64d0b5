---------------------------- MODULE MapAlgebra ----------------------------
(* Three map sets: the operands 1 and 2, and 3, the result of the last set   *)
(* operation. Entries are equal when their keys are; which of two equal      *)
(* entries a union or an intersection keeps is left open, so both are only   *)
(* taken of operands that agree on their common keys. A result is a map of   *)
(* its own: overwriting a value in one of the three shows in no other.       *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS K, V

VARIABLES h,              \* <<A, B, R>>, each a map: value of a key, 0 if absent
          ev, res
vars == <<h, ev, res>>

Keys == 1..K
Vals == 1..V
None == [k \in Keys |-> 0]
Dom(f) == {k \in Keys : f[k] # 0}
Agree(a, b) == \A k \in Dom(h[a]) \cap Dom(h[b]) : h[a][k] = h[b][k]

TypeOK == \A j \in 1..3 : h[j] \in [Keys -> 0..V]

RECURSIVE ListIn(_, _, _)
ListIn(f, lo, hi) ==
  IF lo > hi THEN << >>
  ELSE IF lo = hi THEN (IF f[lo] # 0 THEN <<<<lo, f[lo]>>>> ELSE << >>)
  ELSE LET mid == (lo + hi) \div 2 IN ListIn(f, lo, mid) \o ListIn(f, mid + 1, hi)
Listing(f) == ListIn(f, 1, K)

Init == h = <<None, None, None>> /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, r, h2) == ev' = op /\ res' = r /\ h' = h2
Bool(b) == IF b THEN <<"true">> ELSE <<"false">>

Put(j, k, v) == Step(<<"put", j, k, v>>, <<"ok">>, [h EXCEPT ![j][k] = v])
Remove(j, k) == Step(<<"remove", j, k>>, IF h[j][k] = 0 THEN <<"err">> ELSE <<"ok", h[j][k]>>, [h EXCEPT ![j][k] = 0])
Get(j, k)    == Step(<<"get", j, k>>, IF h[j][k] = 0 THEN <<"err">> ELSE <<"ok", h[j][k]>>, h)

Union(a, b)     == Agree(a, b) /\ Step(<<"union", a, b>>, <<"ok">>,
                     [h EXCEPT ![3] = [k \in Keys |-> IF h[a][k] # 0 THEN h[a][k] ELSE h[b][k]]])
Intersect(a, b) == Agree(a, b) /\ Step(<<"intersect", a, b>>, <<"ok">>,
                     [h EXCEPT ![3] = [k \in Keys |-> IF h[b][k] # 0 THEN h[a][k] ELSE 0]])
Subtract(a, b)  == Step(<<"subtract", a, b>>, <<"ok">>,
                     [h EXCEPT ![3] = [k \in Keys |-> IF h[b][k] = 0 THEN h[a][k] ELSE 0]])
(* a sorted set made from map set a, used as a map set *)
From(a)         == Step(<<"from", a>>, <<"ok">>, [h EXCEPT ![3] = h[a]])
(* questions look at keys only *)
Subset(a, b)    == Step(<<"subset", a, b>>, Bool(Dom(h[a]) \subseteq Dom(h[b])), h)
Superset(a, b)  == Step(<<"superset", a, b>>, Bool(Dom(h[b]) \subseteq Dom(h[a])), h)
PSubset(a, b)   == Step(<<"psubset", a, b>>, Bool(Dom(h[a]) \subseteq Dom(h[b]) /\ Dom(h[a]) # Dom(h[b])), h)
PSuperset(a, b) == Step(<<"psuperset", a, b>>, Bool(Dom(h[b]) \subseteq Dom(h[a]) /\ Dom(h[a]) # Dom(h[b])), h)

Pairs == {<<1, 2>>, <<2, 1>>, <<1, 1>>}
Next == \/ \E j \in 1..3, k \in Keys : Remove(j, k) \/ Get(j, k) \/ \E v \in Vals : Put(j, k, v)
        \/ From(1)
        \/ \E p \in Pairs : \/ Union(p[1], p[2]) \/ Intersect(p[1], p[2]) \/ Subtract(p[1], p[2])
                            \/ Subset(p[1], p[2]) \/ Superset(p[1], p[2])
                            \/ PSubset(p[1], p[2]) \/ PSuperset(p[1], p[2])
Spec == Init /\ [][Next]_vars

Obs1(f) == <<Cardinality(Dom(f)), Listing(f)>>
Observe(x) == <<Obs1(x[1]), Obs1(x[2]), Obs1(x[3])>>

Untouched == [][ /\ (ev'[1] \in {"union", "intersect", "subtract", "from"} => h'[1] = h[1] /\ h'[2] = h[2])
                 /\ (ev'[1] \in {"subset", "superset", "psubset", "psuperset", "get"} => h' = h)
                 /\ (ev'[1] \in {"put", "remove"} => \A j \in 1..3 : j # ev'[2] => h'[j] = h[j]) ]_vars
===========================================================================
